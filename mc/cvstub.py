"""A model for cross-validation whose result tells exactly what it was trained and evaluated on."""
import torch


class Evaluation:
    def __init__(self, m):
        self.m = m

    def log_likelihood(self, data, theta_estimation="ML", reduction="sum", **kw):
        m = self.m
        if m.fits != 1:
            return torch.tensor(float("nan"), dtype=torch.float64)      # not trained exactly once from the start
        ids = [int(v) for v in data[:, 0]]
        # a number that identifies training rows, validation rows and settings
        code = sum(2.0 ** i for i in m.trained) * 3 + sum(2.0 ** i for i in ids) * 5 * (1 + m.setting) + {"ML": 0, "EAP": 0.5}[theta_estimation]
        LOG.append((sorted(m.trained), sorted(ids), m.setting, theta_estimation, reduction))
        return torch.tensor(code, dtype=torch.float64)


class CVModel:
    """Stands for an untrained model.  `trained_total` would carry over between folds if the model were reused."""

    def __init__(self):
        self.fits, self.trained, self.setting = 0, [], 0.0

    @property
    def evaluate(self):
        return Evaluation(self)

    def fit(self, train_data, algorithm=None, device="cpu", a=0.0, b="x", fail=None, **kw):
        if kw:
            raise TypeError(f"unknown settings {sorted(kw)}")
        if algorithm is not None:
            if algorithm.used:
                self.fits += 10
            algorithm.used = True
        self.fits += 1
        self.trained = [int(v) for v in train_data[:, 0]]
        self.setting = float(a) + {"x": 0.0, "y": 0.25, None: 0.125, True: 0.0625}[b]
        if fail is not None and fail == self.setting:
            raise RuntimeError("the fit fails")


class Algorithm:
    def __init__(self):
        self.used = False


LOG = []
