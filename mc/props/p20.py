"""P20: local dependence statistics (mutual information difference, Q3) and their tests."""
import itertools
import math
import torch
from mc.core import close, require
from mc import models as B

META = dict(
    title="Local dependence statistics equal their definitions, tests count exactly",
    statement="The (absolute) mutual information difference and Q3 of every pair of items are the documented differences of entropies and correlations of "
              "residuals over the responses observed for both items, whatever the missing code; their p-values are exactly the proportions of data sets sampled "
              "at the given latent variables that are more extreme; a statistic that cannot be computed is nan and gets no p-value.",
    over=["inputs", "fault_sequences"],
    quant="all data matrices of three respondents and two items with missing responses and all 4-subsets of patterns of three items; all sequences of sampled data sets",
    why="The existing tests have one mocked example each, and none of the p-values.",
    files=["irtorch/evaluator.py", "irtorch/_internal_utils.py"],
    mech=[("statistics", "mutual_information_difference, q3"), ("entropies and correlations", "entropy, joint_entropy_matrix, correlation_matrix")],
    technique="exhaustive enumeration of small data matrices and of the sampler's answers against direct evaluation of the definitions",
)
PARALLEL = True
BOUNDS = "12^3 matrices of 2 items, 7^4 matrices of 3 items (2 missing codes), all sequences of 3 (thorough: 5) sampled data sets out of 6, also with items without variation"
ASSUMPTIONS = ["marginal entropies use all responses of an item, joint ones the respondents with both (the comment in the code)"]
NAN = math.nan


def miss(x):
    return math.isnan(x) or x == -1


def H(counts, base=2.0):
    n = sum(counts)
    return -sum(c / n * math.log(c / n, base) for c in counts if c > 0) if n else NAN


def count(v):
    d = {}
    for x in v:
        d[x] = d.get(x, 0) + 1
    return list(d.values())


def data_mi(rows, i, j, base):
    a = [r[i] for r in rows if not miss(r[i])]
    b = [r[j] for r in rows if not miss(r[j])]
    ab = [(r[i], r[j]) for r in rows if not miss(r[i]) and not miss(r[j])]
    return H(count(a), base) + H(count(b), base) - H(count(ab), base)


def model_mi(P, i, j, base):
    n = len(P)
    pi = [sum(p[i][v] for p in P) / n for v in range(len(P[0][i]))]
    pj = [sum(p[j][v] for p in P) / n for v in range(len(P[0][j]))]
    pij = [sum(p[i][u] * p[j][v] for p in P) / n for u in range(len(pi)) for v in range(len(pj))]
    return H(pi, base) + H(pj, base) - H(pij, base)


def corr(rows, E, i, j, exact=False):
    """Correlation of residuals; None = no exact expectation (a constant up to rounding)."""
    v = [(r[i] - e[i], r[j] - e[j]) for r, e in zip(rows, E) if not miss(r[i]) and not miss(r[j])]
    if len(v) < 2:
        return NAN
    mx, my = sum(a for a, _ in v) / len(v), sum(b for _, b in v) / len(v)
    sx, sy = sum((a - mx) ** 2 for a, _ in v), sum((b - my) ** 2 for _, b in v)
    if exact and (sx == 0 or sy == 0):             # residuals of exactly +-1/2: no rounding
        return NAN
    if sx < 1e-5 or sy < 1e-5:
        return None
    return sum((a - mx) * (b - my) for a, b in v) / math.sqrt(sx * sy)


def check(ctx, m, rows, th, base=2.0):
    k = m.items
    P = m.item_probabilities(th).double().tolist()
    E = m.expected_scores(th).double().tolist()
    data = torch.tensor(rows)
    mid, amid, p = m.evaluate.mutual_information_difference(data, th, log_base=base)
    require(p is None, "p-values nobody asked for")
    q3, p = m.evaluate.q3(data, th)
    require(p is None, "p-values nobody asked for")
    for df in (mid, amid, q3):
        require(list(df.columns) == [f"Item {i + 1}" for i in range(k)] and list(df.index) == list(df.columns), "labels")
    for i in range(k):
        for j in range(k):
            want = data_mi(rows, i, j, base) - model_mi(P, i, j, base)
            if i == j:
                continue
            close(float(mid.iloc[i, j]), want, f"MID {i},{j}", atol=2e-5)
            close(float(amid.iloc[i, j]), abs(want), f"AMID {i},{j}", atol=2e-5)
            c = corr(rows, E, i, j)
            if c is not None:
                got = float(q3.iloc[i, j])
                if math.isnan(c):                  # fewer than two respondents: no correlation, nan or 0
                    require(math.isnan(got) or got == 0, f"Q3 {i},{j} without responses is {got}")
                else:
                    close(got, c, f"Q3 {i},{j}", atol=6e-4)
    require(all(math.isnan(q3.iloc[i, i]) for i in range(k)), "Q3 of an item with itself")
    ctx.step(2)


def scripted(m, script, th):
    it = iter(script)

    def sample(theta):
        require(torch.equal(theta, th), "data sampled at other latent variables than the given ones")
        return torch.tensor(next(it))
    m.sample_test_data = sample


def check_tests(ctx, m, rows, th, script, base=2.0, exact=False):
    k, n = m.items, len(script)
    P = m.item_probabilities(th).double().tolist()
    E = m.expected_scores(th).double().tolist()
    data = torch.tensor(rows)
    scripted(m, script, th)
    _, amid, pa = m.evaluate.mutual_information_difference(data, th, sample_hypothesis_test=True, samples=n, log_base=base)
    scripted(m, script, th)
    q3, pq = m.evaluate.q3(data, th, sample_hypothesis_test=True, samples=n)
    for i in range(k):
        for j in range(k):
            if i == j:
                require(math.isnan(pa.iloc[i, i]) and math.isnan(pq.iloc[i, i]), "p-value of an item with itself")
                continue
            em = model_mi(P, i, j, base)
            obs = abs(data_mi(rows, i, j, base) - em)
            got = float(pa.iloc[i, j])
            if math.isnan(obs):
                require(math.isnan(got), f"p-value {got} of AMID {i},{j} that does not exist")
            else:
                s = [abs(data_mi(d, i, j, base) - em) for d in script]
                # a sample that is the observed data set itself is not more extreme than it; other near ties may go either way
                lo, hi = sum(x > obs + 1e-5 for x in s), sum(x > obs - 1e-5 and d != rows for x, d in zip(s, script))
                require(lo / n - 6e-4 <= got <= hi / n + 6e-4, f"p-value of AMID {i},{j}: {got}, {lo}..{hi} of {n} samples are larger")
            obs, got = corr(rows, E, i, j, exact), float(pq.iloc[i, j])
            s = [corr(d, E, i, j, exact) for d in script]
            if obs is None or any(x is None for x in s):
                continue
            if math.isnan(obs):
                require(math.isnan(got) or math.isfinite(q3.iloc[i, j]), f"p-value {got} of Q3 {i},{j} that does not exist")
                require(not exact or math.isnan(q3.iloc[i, j]), f"Q3 {i},{j} of an item without variation is {q3.iloc[i, j]}")
                continue
            lo, hi = sum(x < obs - 1e-5 for x in s), sum(x < obs + 1e-5 for x in s)
            defined = sum(not math.isnan(x) for x in s)      # a sample without a correlation is not more extreme on either side
            ok = {min(x, defined - x) * 2 / n for x in range(lo, hi + 1)}
            require(any(abs(got - x) < 6e-4 for x in ok), f"p-value of Q3 {i},{j}: {got} instead of {ok} ({lo} of {n} samples are smaller)")
            ctx.outcome(i, j, got)
    ctx.step(2 * n)


def run(ctx):
    th = torch.tensor([[-0.7], [1.1], [0.2], [-1.6]])
    m = B.build("GPC", 1, [2, 3])
    for rows in ctx.each(list(itertools.product(itertools.product((0., 1., None), (0., 1., 2., None)), repeat=3))):
        rows = [[(NAN if (i + j) % 2 else -1.) if x is None else x for j, x in enumerate(r)] for i, r in enumerate(rows)]
        with ctx.case("two items", data=str(rows)):
            check(ctx, m, rows, th[:3])
            ctx.state(str(rows))
    pats = [(0., 2., 1.), (1., 0., 0.), (1., 1., 1.), (0., 0., 0.), (NAN, 2., 1.), (1., -1., NAN), (0., 1., -1.)]
    models = [("GPC", {}), ("NRM", {}), ("2PL2", {})] if ctx.thorough else [("GPC", {})]
    for name, _ in models:
        lv = 2 if name == "2PL2" else 1
        m3 = B.build("2PL", 2, [2, 2, 2]) if name == "2PL2" else B.build(name, 1, [2, 3, 2])
        t3 = th if lv == 1 else torch.cat([th, th.flip(0)], 1)
        for n, rows in ctx.each(list(enumerate(itertools.product(pats, repeat=4)))):
            rows = [[min(x, 1.) if lv == 2 else x for x in r] for r in rows]
            with ctx.case("three items", model=name, data=str(rows)):
                check(ctx, m3, rows, t3, base=(2.0, math.e, 10.0)[n % 3])
                ctx.state(name, str(rows))
    full = [[list(p) for p in c] for c in (((0., 2., 1.), (1., 0., 0.), (1., 1., 1.), (0., 0., 0.)), ((0., 0., 0.), (1., 2., 1.), (0., 1., 1.), (1., 1., 0.)),
                                          ((1., 2., 0.), (0., 0., 1.), (1., 2., 1.), (0., 1., 0.)), ((1., 1., 1.), (0., 1., 0.), (1., 0., 1.), (0., 2., 0.)),
                                          ((0., 1., 0.), (1., 1., 1.), (0., 2., 1.), (1., 0., 0.)), ((1., 0., 1.), (1., 1., 0.), (0., 2., 0.), (0., 0., 1.)))]
    observed = full[:3] + [[[0., 2., NAN], [NAN, 0., 1.], [1., -1., 0.], [0., 1., 1.]], [[0., NAN, 1.], [1., -1., 0.], [-1., 0., 1.], [NAN, 2., 0.]]]
    m3 = B.build("GPC", 1, [2, 3, 2])
    for n in (1, 2, 3) + ((4, 5) if ctx.thorough else ()):
        for script in ctx.each(list(itertools.product(range(6), repeat=n))):
            for o, rows in enumerate(observed):
                with ctx.case("tests", observed=o, samples=list(script)):
                    check_tests(ctx, m3, rows, th, [full[s] for s in script], (2.0, 10.0, math.e)[(o + sum(script)) % 3])
                    ctx.state(o, script)
    # residuals of exactly +-1/2: correlations of items without variation, observed or sampled, do not exist
    m = B.build("2PL", 1, [2, 2, 2])
    with torch.no_grad():
        m.bias_param.zero_()
    zero = torch.zeros(4, 1)
    tables = [[[float(b) for b in r] for r in c] for c in (((0, 1, 1), (1, 0, 1), (0, 0, 0), (1, 1, 0)), ((1, 1, 0), (1, 0, 0), (1, 1, 1), (1, 0, 1)),
                                                          ((0, 0, 1), (0, 1, 1), (1, 0, 1), (1, 1, 1)), ((0, 1, 0), (1, 0, 0), (1, 0, 0), (0, 1, 0)),
                                                          ((1, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 0)), ((0, 0, 0), (0, 0, 0), (0, 0, 0), (0, 0, 0)))]
    for n in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        for script in ctx.each(list(itertools.product(range(6), repeat=n))):
            for o, rows in enumerate(tables):
                with ctx.case("undefined", observed=o, samples=list(script)):
                    check_tests(ctx, m, rows, zero, [tables[s] for s in script], exact=True)
                    ctx.state("undefined", o, script)
