"""P12: asking a model something does not change it."""
import torch
from mc.core import require, raises
from mc import kinds as K

META = dict(
    title="Queries have no side effects and answer the same at any time",
    statement="No probability, score, scale, evaluation or plotting query, successful or refused, changes the model's parameters, their trainability, its "
              "scales, its training results, the global gradient mode or the tensors the caller passed in. Any query gives the same answer "
              "after any other query as it gives first on a fresh model.",
    over=["histories", "configurations"],
    quant="all single queries and all ordered pairs of queries of the public model, evaluator and plotter interface, on several kinds of model",
    why="Tests run each query once on a mocked model; caches, in-place edits and flags left behind only matter for what is asked next.",
    files=["irtorch/models/base_irt_model.py", "irtorch/evaluator.py", "irtorch/plotter.py", "irtorch/_internal_utils.py"],
    mech=[("in-place edits", "residuals, one_hot_encode_test_data, entropy"), ("restored flags", "_ml_map_theta_scores finally"),
          ("caches", "Evaluator.latent_density")],
    technique="exhaustive enumeration of all query sequences of length 1 and 2 over ~55 queries on the real objects, comparing complete snapshots and answers",
)
PARALLEL = True
BOUNDS = ("7 kinds of model x all ~55 applicable queries, alone, repeated, under each frozen-parameter pattern and for caller tensors with and without "
          "gradients; all ordered pairs for 2 kinds (quick: all first x 9 second queries for the others; thorough: all pairs for all kinds)")
ASSUMPTIONS = ["random queries are compared under the same seed"]
PROBES = ("item_probabilities", "EAP", "ML", "residuals none", "sum_score qmvn", "information", "log_likelihood item", "transform_theta", "plot item_probabilities")
SLOW = ("sum_score gmm", "plot information", "ML se", "mutual_information test", "q3 test")


def ask(m, name, q, kind):
    lv = m.latent_variables
    theta = K.thetas_for(lv, k=0.4)
    data = K.data_for(m.item_categories, missing=name not in ("NN",) or getattr(m.algorithm, "one_hot_encoded", False), k=1)
    t0, d0 = theta.clone(), data.clone()
    torch.manual_seed(11)
    out = None
    if kind == "error":
        raises(lambda: q(theta, data), f"{name}")
    else:
        out = K.digest(q(theta, data))
    require(torch.equal(theta, t0) and not theta.requires_grad and theta.grad is None, f"{name} changed the caller's latent variables")
    require(bool(((data == d0) | (data.isnan() & d0.isnan())).all()) and not data.requires_grad, f"{name} changed the caller's data")
    return out


def run(ctx):
    names = list(K.KINDS)
    jobs = []
    for kn in names:
        m = K.KINDS[kn]()
        for q in K.queries(m):
            jobs.append((kn, q))
    for rows, train in ctx.each([(2, 500001), (1001, 1000)] + ctx.pick([], [(500001, 2)])):      # starting points are a sample, or the median, of the training scores
        for est in ("ML", "MAP"):
            with ctx.case("large tables", rows=rows, train=train, estimation=est):
                m = K.KINDS["GPC1-JML"]()
                m.algorithm.training_theta_scores = torch.linspace(-2, 2, train).view(-1, 1)
                data = torch.tensor([[float(c - 1) for c in m.item_categories], [0.0] * m.items]).repeat((rows + 1) // 2, 1)[:rows]
                s0, d0 = K.snapshot(m), data.clone()
                m.latent_scores(data, theta_estimation=est, rescale=False)
                K.unchanged(s0, K.snapshot(m), f"{est} scores of {rows} respondents")
                require(torch.equal(data, d0), "the data changed")
                ctx.state("large", rows, train, est)
                ctx.step()
    base_cache = {}
    models = {}
    for kn, first in ctx.each(jobs):
        # single query on a fresh model
        base = None
        with ctx.case("single", kind=kn, query=first):
            m = K.KINDS[kn]()
            q, kind = K.queries(m)[first]
            s0 = K.snapshot(m)
            base = ask(m, first, q, kind)
            K.unchanged(s0, K.snapshot(m), first)
            again = ask(m, first, q, kind)
            K.same(again, base, f"{first} asked twice")
            K.unchanged(s0, K.snapshot(m), first + " twice")
            # frozen parameters stay frozen, trainable ones trainable
            ps = list(m.parameters())
            for j, p in enumerate(ps):
                p.requires_grad_(j % 2 == 0)
            s1 = K.snapshot(m)
            K.same(ask(m, first, q, kind), base, f"{first} with frozen parameters")
            K.unchanged(s1, K.snapshot(m), first + " with frozen parameters")
            for p in ps:
                p.requires_grad_(True)
            if kind == "det" and not first.startswith("plot"):
                with torch.no_grad():
                    K.same(ask(m, first, q, kind), base, f"{first} without gradients")
                    require(not torch.is_grad_enabled(), f"{first} switched gradients on")
            require(torch.is_grad_enabled(), f"{first} switched gradients off")
            ctx.state(kn, first)
            ctx.step(4)
        # pairs: first, then every other query, on one model that must stay as it was
        m = None
        full = ctx.thorough or kn in ("GPC1-JML",)
        for second in list(K.queries(K.KINDS[kn]())):
            if not full and second not in PROBES or (second in SLOW and not ctx.thorough):
                continue
            with ctx.case("pair", kind=kn, first=first, second=second):
                if (kn, second) not in base_cache:
                    fresh = K.KINDS[kn]()
                    q2, k2 = K.queries(fresh)[second]
                    base_cache[kn, second] = ask(fresh, second, q2, k2)
                # the first query is asked once per model; the model has then answered `first` and any number of others
                if m is None or second in ("sum_score qmvn", "sum_score gmm", "sum_score data", "sum_score population", "sum_score encoder"):
                    m = None
                    fresh = K.KINDS[kn]()
                    q1, k1 = K.queries(fresh)[first]
                    ask(fresh, first, q1, k1)
                    m, snap = fresh, K.snapshot(fresh)
                q2, k2 = K.queries(m)[second]
                K.same(ask(m, second, q2, k2), base_cache[kn, second], f"{second} after {first}")
                K.unchanged(snap, K.snapshot(m), f"{second} after {first}")
                ctx.state(kn, first, second)
                ctx.step(2)
