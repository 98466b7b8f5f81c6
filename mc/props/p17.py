"""P17: splitting and cross-validation."""
import gc
import itertools
import math
import torch
from mc.core import close, equal, raises, require
from mc import cvstub

META = dict(
    title="Splits and folds partition the respondents and never leak",
    statement="Splitting data puts every respondent, unchanged, in exactly one part, with the requested share for training, for every outcome of the shuffle. "
              "Cross-validation evaluates each respondent exactly once, with a model fitted from its untrained state on exactly the other folds and the "
              "row's parameters, for every parameter combination, and gives the same table sequentially and in processes.",
    over=["inputs", "configurations", "schedules"],
    quant="all shuffles of up to 5 (thorough 6) respondents x split ratios; all numbers of respondents and folds x parameter grids x estimation methods, "
          "sequential and with worker processes",
    why="Tests check shapes and column names of one run; leakage, lost rows and mixed-up rows keep shapes and names intact.",
    files=["irtorch/utils.py"],
    mech=[("split", "split_data"), ("folds", "_prepare_cross_validation_data, _cv_param_combination"), ("grid", "_create_param_grid"), ("processes", "_run_multiprocessing")],
    technique="exhaustive enumeration of shuffle outcomes, fold counts and grids with a recording model that reports what it was trained and evaluated on",
)
PARALLEL = True
BOUNDS = ("split: n <= 5 (6), every permutation, 7 ratios; cross-validation: n <= 7 (9), folds 2..n, 6 grids, every permutation for n = 4; "
          "worker processes: 3 runs with 1-3 cores")
ASSUMPTIONS = ["the shuffle is scripted through torch.randperm; a shuffle drawn in another way is only checked for the partition property"]


class Perm:
    def __init__(self, p):
        self.p, self.calls = list(p), 0

    def __enter__(self):
        self.old = torch.randperm
        torch.randperm = self.f
        return self

    def f(self, n, *a, **k):
        self.calls += 1
        return torch.tensor(self.p) if n == len(self.p) else self.old(n, *a, **k)

    def __exit__(self, *a):
        torch.randperm = self.old


def rows(n):
    return torch.tensor([[float(i), 10.0 + i, math.nan if i % 3 == 0 else -1.0] for i in range(n)])


def same_rows(parts, data, what):
    ids = [int(v) for p in parts for v in p[:, 0]]
    require(sorted(ids) == list(range(len(data))), f"{what}: rows {ids}")
    for p in parts:
        for r in p:
            equal(torch.nan_to_num(r, nan=-9.), torch.nan_to_num(data[int(r[0])], nan=-9.), f"{what}: a row was changed")


GRIDS = [
    {"a": [1.0]}, {"a": [1.0, 2.0]}, {"a": [2, 1], "b": ["x", "y"]}, {"b": ["y", None, True]}, {"b": ["x", "y"], "a": [3]}, {"a": [1.0, 1.0]},
]
SETTING = {"x": 0.0, "y": 0.25, None: 0.125, True: 0.0625}


def run(ctx):
    from irtorch.utils import cross_validation, split_data
    gc.collect()
    gc.freeze()                                  # the timer of cross_validation collects garbage
    for n in ctx.each([1, 2, 3, 4, 5] + ([6] if ctx.thorough else [])):
        data = rows(n)
        for ratio in (0.0, 0.2, 0.5, 0.6, 0.8, 0.99, 1.0):
            for p in list(itertools.permutations(range(n))) + [None]:
                with ctx.case("split", n=n, ratio=ratio, permutation=p and list(p)):
                    keep = data.clone()
                    if p is None:
                        parts = split_data(data, ratio, shuffle=False)
                        require([int(v) for q in parts for v in q[:, 0]] == list(range(n)), "rows are reordered without shuffling")
                    else:
                        with Perm(p):
                            parts = split_data(data, ratio)
                    require(len(parts) == 2, "two parts")
                    same_rows(parts, data, "split")
                    require(abs(len(parts[0]) - n * ratio) < 1, f"{len(parts[0])} of {n} rows for a share of {ratio}")
                    require(len(parts[0]) == int(n * ratio), "rows for training")
                    equal(torch.nan_to_num(data, nan=-9.), torch.nan_to_num(keep, nan=-9.), "caller's data")
                    ctx.state("split", n, ratio, p)
                    ctx.step()
    orders = {}
    for n in ctx.each([3, 4, 5, 6, 7] + ([8, 9] if ctx.thorough else [])):
        for p in [None] if n != 4 else list(itertools.permutations(range(4))):
            for folds in range(2, n + 1):
                for gi, grid in enumerate(GRIDS):
                    for est, alg, extra in itertools.product(("ML", "EAP"), (False, True), (False, True)):
                        if p is not None and (alg or extra or est == "EAP"):
                            continue
                        with ctx.case("folds", n=n, folds=folds, grid=gi, estimation=est, algorithm=alg, extra=extra, permutation=p and list(p)):
                            one(ctx, cross_validation, n, folds, grid, est, alg, extra, p, dict(device="cpu", multiprocessing=False))
                            ctx.state(n, folds, gi, est, alg, extra, p)
    # worker processes
    for n, folds, gi, cores in ctx.each([(5, 2, 2, 2), (6, 3, 1, 1), (4, 4, 3, 3)]):
        with ctx.case("processes", n=n, folds=folds, grid=gi, cores=cores):
            one(ctx, cross_validation, n, folds, GRIDS[gi], "EAP", True, False, list(range(n))[::-1], dict(device="cpu", cores_to_use=cores))
            require(torch.get_num_threads() == 1, "the number of threads is restored")
            ctx.state("processes", n, folds, gi, cores)
    # a failing fit is reported, not averaged away
    with ctx.case("failing fit"):
        raises(lambda: cross_validation(cvstub.CVModel(), rows(4), 2, {"a": [1.0, 2.0]}, device="cpu", multiprocessing=False, fail=2.0), "cross-validation with a fit that fails")
        if not torch.cuda.is_available():
            raises(lambda: cross_validation(cvstub.CVModel(), rows(4), 2, {"a": [1.0]}, device="cuda"), "CUDA that is not there")


def one(ctx, cv, n, folds, grid, est, alg, extra, p, kw):
    data = rows(n)
    keep = data.clone()
    m = cvstub.CVModel()
    cvstub.LOG.clear()
    kw = dict(kw, theta_estimation=est)
    grid = {k: list(v) for k, v in grid.items()}
    if alg:
        kw["algorithm"] = a = cvstub.Algorithm()
    if extra:
        kw["fail"] = None
    with Perm(p if p is not None else [(i * 3 + 1) % n if n % 3 else (i * (n - 1)) % n for i in range(n)]) as perm:
        df = cv(m, data, folds, dict(grid), **kw)
    order = perm.p if perm.calls == 1 else None
    combos = [dict(zip(grid, c)) for c in itertools.product(*grid.values())]
    require(len(df) == len(combos), f"{len(df)} rows for {len(combos)} parameter combinations")
    require(set(df.columns) == set(grid) | {"log_likelihood"}, f"columns {list(df.columns)}")
    require(m.fits == 0 and (not alg or not a.used), "the caller's model or algorithm was trained")
    equal(torch.nan_to_num(data, nan=-9.), torch.nan_to_num(keep, nan=-9.), "caller's data")
    log = list(cvstub.LOG)
    sequential = kw.get("multiprocessing") is False
    if not sequential:
        ctx.notes["worker processes used"] = not log
    if sequential:
        require(len(log) == folds * len(combos), f"{len(log)} evaluations for {folds} folds x {len(combos)} combinations")
    for k, c in enumerate(combos):
        for name, v in c.items():
            got = df.iloc[k][name]
            require(got == v or (v is None and (got is None or got != got)), f"row {k}: {name} is {got!r}, expected {v!r}")
        setting = float(c.get("a", 0.0)) + SETTING[c.get("b", "x")]
        if sequential:
            part = log[k * folds:(k + 1) * folds]
            vals = [v for _, v, *_ in part]
            require(sorted(i for v in vals for i in v) == list(range(n)), f"validation folds {vals} do not cover every respondent once")
            sizes = sorted(len(v) for v in vals)
            require(sizes[-1] - sizes[0] <= 1, f"folds of sizes {sizes}")
            for tr, v, s, e, red in part:
                require(sorted(tr + v) == list(range(n)), f"trained on {tr} for validation on {v}")
                require(abs(s - setting) < 1e-9 and e == est, f"settings {s}, {e} for the row of {setting}, {est}")
            want = sum(code(tr, v, setting, est) for tr, v, *_ in part) / folds
        elif order is not None:
            chunks = torch.tensor_split(torch.tensor(order), folds)
            want = sum(code([i for i in range(n) if i not in ch.tolist()], ch.tolist(), setting, est) for ch in chunks) / folds
        else:
            # every respondent is validated once and used for training folds - 1 times
            want = ((2.0 ** n - 1) * 3 * (folds - 1) + (2.0 ** n - 1) * 5 * (1 + setting)) / folds + {"ML": 0, "EAP": 0.5}[est]
        close(float(df.iloc[k]["log_likelihood"]), want, f"average over folds in row {k}", rtol=1e-9)
    ctx.step(folds * len(combos))


def code(tr, v, setting, est):
    return sum(2.0 ** i for i in tr) * 3 + sum(2.0 ** i for i in v) * 5 * (1 + setting) + {"ML": 0, "EAP": 0.5}[est]
