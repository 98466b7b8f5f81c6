"""A scripted environment for training loops: a model whose loss at the k-th evaluation is given by a script, and a
recorder of what every optimizer step did."""
import math
import torch
from torch import nn
from irtorch.models import BaseIRTModel


class Interrupt(Exception):
    """Stands for the user's interrupt or any failure of the environment."""


class Scripted(BaseIRTModel):
    """One two-category item; every response is 1.  The log-likelihood of a response at evaluation k is -script[k] (nan: the
    evaluation overflows); the gradient of the loss with respect to the parameter and to theta is a constant."""

    def __init__(self, script, rows=1):
        super().__init__(latent_variables=1, item_categories=[2])
        self.p = nn.Parameter(torch.zeros(1))
        self.script, self.rows, self.calls, self.on = list(script), rows, 0, True
        self.fail_at = None

    def forward(self, theta):
        n = theta.shape[0]
        if not self.on:
            return torch.stack([torch.zeros(n), self.p * theta[:, 0]], 1)
        k = self.calls
        self.calls += 1
        if self.fail_at is not None and k == self.fail_at:
            raise Interrupt()
        loss = self.script[min(k, len(self.script) - 1)] / self.rows
        if math.isnan(loss):
            x, g = torch.tensor(math.nan), 1.0
        else:
            # softplus(-x) = loss, d loss / d x = -(1 - exp(-loss))
            x, g = torch.tensor(-math.log(math.expm1(loss))), -1.0 / (1 - math.exp(-loss))
        move = (self.p - self.p.detach()) + (theta[:, 0] - theta[:, 0].detach())
        out = x + g * move
        return torch.stack([torch.zeros(n), out], 1)


class Recorder:
    """Copies of the parameters after every optimizer step, and the learning rate of the step."""

    def __enter__(self):
        from torch.optim.optimizer import register_optimizer_step_pre_hook, register_optimizer_step_post_hook
        self.steps, self.rates = [], []

        def pre(opt, *a):
            self.rates.append(opt.param_groups[0]["lr"])

        def post(opt, *a):
            self.steps.append([p.detach().clone() for g in opt.param_groups for p in g["params"]])
        self.h = [register_optimizer_step_pre_hook(pre), register_optimizer_step_post_hook(post)]
        return self

    def __exit__(self, *a):
        for h in self.h:
            h.remove()


class Plateau:
    """Reference of 'reduce the learning rate when the loss has not improved for more than `patience` evaluations'."""

    def __init__(self, lr, factor, patience, threshold):
        self.lr, self.factor, self.patience, self.threshold = lr, factor, patience, threshold
        self.best, self.bad, self.updates = math.inf, 0, 0

    def step(self, loss):
        if loss < self.best * (1 - self.threshold):
            self.best, self.bad = loss, 0
        else:
            self.bad += 1
        if self.bad > self.patience:
            self.lr, self.bad = self.lr * self.factor, 0
            self.updates += 1


def scripts(levels, depth):
    """All loss sequences of this length; after nan everything is nan (the parameters are)."""
    def rec(prefix):
        if len(prefix) == depth:
            yield tuple(prefix)
        elif prefix and math.isnan(prefix[-1]):
            yield tuple(prefix) + (math.nan,) * (depth - len(prefix))
        else:
            for v in levels:
                yield from rec(prefix + [v])
    yield from rec([])
