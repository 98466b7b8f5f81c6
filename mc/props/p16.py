"""P16: what data utilities do with every small data matrix."""
import itertools
import math
import torch
from mc.core import close, equal, raises, require
from mc import models as B

META = dict(
    title="Responses and missing codes keep their meaning in every data utility",
    statement="nan and -1 both mean missing, everywhere. One-hot coding, imputation, sum scores, item categories and the training dataset turn every "
              "observed response into exactly itself, fill only missing cells and with what the chosen method says, and never change the caller's tensor.",
    over=["inputs"],
    quant="all response matrices over {0, 1, 2, nan, -1} up to the size bound x every utility and method x scoring key",
    why="Tests use one or two matrices with one missing code; which combination of code, column and method is mishandled needs all of them.",
    files=["irtorch/_internal_utils.py", "irtorch/utils.py", "irtorch/irt_dataset.py"],
    mech=[("one-hot", "one_hot_encode_test_data"), ("imputation", "impute_missing, impute_missing_internal"), ("sum score", "sum_score"),
          ("categories", "get_item_categories"), ("dataset", "PytorchIRTDataset")],
    technique="exhaustive enumeration of all small response matrices against a cell-by-cell specification in plain Python",
)
PARALLEL = True
BOUNDS = "all matrices of 1x1, 2x1, 3x1, 4x1, 1x2, 2x2, 1x3 cells (thorough: also 3x2, 2x3 with four symbols) over 5 symbols; 3 category settings; integer and float types"
ASSUMPTIONS = ["a column without any observed response has no mean and no category count; those results are left open"]
SYM = (0., 1., 2., math.nan, -1.)


def miss(x):
    return math.isnan(x) or x == -1


def run(ctx):
    from irtorch.utils import get_item_categories, impute_missing
    from irtorch._internal_utils import get_missing_mask, impute_missing_internal, one_hot_encode_test_data, sum_score
    from irtorch.irt_dataset import PytorchIRTDataset
    shapes = [(1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2), (1, 3)] + ([(3, 2), (2, 3)] if ctx.thorough else [])
    jobs = []
    for r, c in shapes:
        sym = SYM if r * c < 6 else (1., 2., math.nan, -1.)
        jobs += [(r, c, cells) for cells in itertools.product(sym, repeat=r * c)]
    prior_models = {}
    for r, c, cells in ctx.each(jobs):
        rows = [list(cells[i * c:(i + 1) * c]) for i in range(r)]
        data = torch.tensor(rows)
        keep = data.clone()

        def unharmed(what):
            require(bool(((data == keep) | (data.isnan() & keep.isnan())).all()), f"{what} changed the caller's data")
        desc = [[str(x) for x in row] for row in rows]
        with ctx.case("coding", data=desc):
            mask = torch.tensor([[miss(x) for x in row] for row in rows])
            require(torch.equal(get_missing_mask(data), mask), "missing mask")
            for cats in ([3] * c, [3 + (j % 2) for j in range(c)]):
                want = [[1.0 if (not miss(x) and x == v) else 0.0 for j, x in enumerate(row) for v in range(cats[j])] for row in rows]
                equal(one_hot_encode_test_data(data, cats), want, "one-hot coding")
                if not any(math.isnan(x) for x in cells):
                    equal(one_hot_encode_test_data(data.long(), cats), want, "one-hot coding of integers")
                ds = PytorchIRTDataset(data, one_hot_encoded=True, item_categories=cats)
                equal(ds.input_data, want, "encoder input")
            unharmed("one-hot coding")
            raises(lambda: one_hot_encode_test_data(data, [3] * (c + 1)), "one-hot coding with a wrong number of items")
            equal(sum_score(data), [sum(0 if miss(x) else x for x in row) for row in rows], "sum score")
            for key in itertools.product((0, 1, 2), repeat=c):
                equal(sum_score(data, list(key)), [float(sum((not miss(x)) and x == k for x, k in zip(row, key))) for row in rows], f"sum score with key {key}")
            unharmed("sum score")
            obs = [[x for x in (row[j] for row in rows) if not miss(x)] for j in range(c)]
            if all(obs):
                require(get_item_categories(data) == [int(max(o)) + 1 for o in obs], f"item categories {get_item_categories(data)}")
            unharmed("item categories")
            ds = PytorchIRTDataset(data)
            require(len(ds) == r, "dataset length")
            for i in range(r):
                d, m, x, k = ds[i]
                equal(torch.nan_to_num(d, nan=-9.), torch.nan_to_num(data[i], nan=-9.), "dataset row")
                require(torch.equal(m, mask[i]) and k == i, "dataset mask or index")
            unharmed("dataset")
            ctx.step(8)
        with ctx.case("imputation", data=desc):
            for name, f in (("utils", impute_missing), ("internal", impute_missing_internal)):
                got = f(data, "zero")
                equal(got, [[0. if miss(x) else x for x in row] for row in rows], f"{name}: zero")
                unharmed("zero imputation")
                got = f(data, "mean")
                unharmed("mean imputation")
                for i, row in enumerate(rows):
                    for j, x in enumerate(row):
                        if not miss(x):
                            require(float(got[i, j]) == x, f"{name}: mean imputation changed a response")
                        elif obs[j]:
                            close(float(got[i, j]), sum(obs[j]) / len(obs[j]), f"{name}: mean of column {j}")
                for key in ([0] * c, [2] * c, [j % 3 for j in range(c)]):
                    for cats in ([3] * c, None):
                        if cats is None and not all(obs):
                            continue
                        top = [3] * c if cats else [int(max(o)) + 1 for o in obs]
                        wrong = [[v for v in range(top[j]) if v != key[j]] for j in range(c)]
                        if any(not w and any(miss(row[j]) for row in rows) for j, w in enumerate(wrong)):
                            continue
                        if any(not w for w in wrong):
                            continue                      # an item whose only known category is the correct one
                        for seed in (0, 1):
                            torch.manual_seed(seed)
                            got = f(data, "random incorrect", mc_correct=key, item_categories=cats)
                            for i, row in enumerate(rows):
                                for j, x in enumerate(row):
                                    v = float(got[i, j])
                                    ok = v == x if not miss(x) else v in wrong[j]
                                    require(ok, f"{name}: random incorrect gave {v} for {x} with key {key[j]} and categories {top[j]}")
                unharmed("random incorrect imputation")
                raises(lambda: f(data, "random incorrect"), f"{name}: random incorrect without a key")
                raises(lambda: f(data, "no such method"), f"{name}: unknown method")
            for meth in ("zero", "mean"):
                ds = PytorchIRTDataset(data, imputation_method=meth)
                got = impute_missing(data, meth)
                equal(torch.nan_to_num(ds.input_data, nan=-9.), torch.nan_to_num(got, nan=-9.), f"dataset input with {meth} imputation")
                require(torch.equal(ds.mask, mask), "imputation must not hide missing responses from the likelihood")
                equal(torch.nan_to_num(ds.data, nan=-9.), torch.nan_to_num(data, nan=-9.), "imputation must not change the responses of the likelihood")
            torch.manual_seed(0)
            ds = PytorchIRTDataset(data, one_hot_encoded=True, item_categories=[3] * c, imputation_method="random incorrect", mc_correct=[1] * c)
            want = [[x for x in row] for row in rows]
            for i, row in enumerate(rows):
                for j, x in enumerate(row):
                    block = ds.input_data[i, 3 * j:3 * j + 3].tolist()
                    require(sorted(block) == [0., 0., 1.], "an imputed cell is one-hot")
                    require(block[int(x)] == 1. if not miss(x) else block[1] == 0., "encoder input after random incorrect imputation")
            if all(obs):
                mean = [sum(o) / len(o) for o in obs]
                if all(abs(v - math.floor(v) - 0.5) > 1e-3 for v in mean):
                    ds = PytorchIRTDataset(data, one_hot_encoded=True, item_categories=[3] * c, imputation_method="mean")
                    near = [[math.floor(mean[j] + 0.5) if miss(x) else x for j, x in enumerate(row)] for row in rows]
                    equal(ds.input_data, [[1. if x == v else 0. for x in row for v in range(3)] for row in near], "encoder input with the means of the items")
            # prior expected: the rounded expected score at theta = 0
            if c not in prior_models:
                m = B.build("GPC", 1, [3, 4, 3][:c], p=1)
                prior_models[c] = (m, m.expected_scores(torch.zeros(1, 1))[0].round().tolist(), B.build("NRM", 1, [3, 4, 3][:c], mc_correct=[0] * c))
            m, prior, mc = prior_models[c]
            equal(impute_missing(data, "prior expected", model=m), [[prior[j] if miss(x) else x for j, x in enumerate(row)] for row in rows], "prior expected imputation")
            raises(lambda: impute_missing(data, "prior expected"), "prior expected without a model")
            raises(lambda: impute_missing(data, "prior expected", model=mc), "prior expected with a multiple choice model")
            torch.manual_seed(0)
            got = impute_missing(data, "random incorrect", model=mc)
            for i, row in enumerate(rows):
                for j, x in enumerate(row):
                    v = float(got[i, j])
                    require(v == x if not miss(x) else v in list(range(1, mc.item_categories[j])), "random incorrect imputation with the model's key")
            raises(lambda: impute_missing(data, "random incorrect", model=m), "random incorrect with a model without key")
            unharmed("imputation")
            ctx.state(desc)
            ctx.step(20)
    # every incorrect option is used, the correct one never
    for cats, key in ctx.each([(cats, key) for cats in (2, 3, 4, 5) for key in range(cats)]):
        with ctx.case("random incorrect options", cats=cats, key=key):
            for f in (impute_missing, impute_missing_internal):
                torch.manual_seed(1)
                got = f(torch.full((200, 1), math.nan), "random incorrect", mc_correct=[key], item_categories=[cats])
                require(sorted(set(got.flatten().tolist())) == [float(v) for v in range(cats) if v != key], "options used by random incorrect imputation")
            ctx.state("options", cats, key)
