"""Reference scales: custom Scale subclasses with exactly known transform, inverse and Jacobian, and real ones built
deterministically without training."""
import torch
from irtorch.rescale import Scale, Reverse, Rotate


class Affine(Scale):
    """theta A + b (row vectors)."""
    def __init__(self, A, b):
        super().__init__(invertible=True)
        self.A, self.b = torch.tensor(A, dtype=torch.float32), torch.tensor(b, dtype=torch.float32)

    def transform(self, theta):
        return theta @ self.A + self.b

    def inverse(self, t):
        return (t - self.b) @ torch.inverse(self.A)

    def jacobian(self, theta):
        return self.A.T.unsqueeze(0).repeat(theta.shape[0], 1, 1)


class Sinh(Scale):
    """elementwise sinh(k theta): nonlinear, invertible, diagonal Jacobian that depends on theta."""
    def __init__(self, k=0.5):
        super().__init__(invertible=True)
        self.k = k

    def transform(self, theta):
        return torch.sinh(self.k * theta)

    def inverse(self, t):
        return torch.asinh(t) / self.k

    def jacobian(self, theta):
        return torch.diag_embed(self.k * torch.cosh(self.k * theta))


class Shear(Scale):
    """first coordinate plus tanh of the last: non-diagonal Jacobian that depends on theta."""
    def __init__(self, c=0.6):
        super().__init__(invertible=True)
        self.c = c

    def transform(self, theta):
        out = theta.clone()
        out[:, 0] = theta[:, 0] + self.c * torch.tanh(theta[:, -1])
        return out

    def inverse(self, t):
        out = t.clone()
        if t.shape[1] == 1:
            x = t.clone()
            for _ in range(200):
                x = t - self.c * torch.tanh(x)
            return x
        out[:, 0] = t[:, 0] - self.c * torch.tanh(t[:, -1])
        return out

    def jacobian(self, theta):
        J = torch.eye(theta.shape[1]).repeat(theta.shape[0], 1, 1)
        J[:, 0, -1] = J[:, 0, -1] + self.c * (1 - torch.tanh(theta[:, -1]) ** 2)
        return J


class Opaque(Scale):
    """declared not invertible, monotone: softplus."""
    def __init__(self):
        super().__init__(invertible=False)

    def transform(self, theta):
        return torch.nn.functional.softplus(theta)

    def inverse(self, t):
        raise NotImplementedError

    def jacobian(self, theta):
        return torch.diag_embed(torch.sigmoid(theta))


def flow(lv, k=0):
    """A Flow as fit() leaves it, without the training: fixed spline parameters, means and deviations."""
    from irtorch.rescale import Flow
    from irtorch.torch_modules import NeuralSplineFlow, RationalQuadraticSpline
    from torch.distributions import Normal
    f = Flow(lv)
    rqs = RationalQuadraticSpline(lv, num_bins=4, lower_input_bound=-5.5, upper_input_bound=5.5,
                                  lower_output_bound=-5.5, upper_output_bound=5.5)
    with torch.no_grad():
        for j, (n, p) in enumerate(sorted(rqs.named_parameters())):
            p.copy_(torch.tensor([0.6 * torch.sin(torch.tensor(1.3 * i + j + k)).item() for i in range(p.numel())]).reshape(p.shape))
    f.flow = NeuralSplineFlow(rqs, Normal(torch.zeros(1), torch.ones(1)))
    f.flow.eval()
    f.theta_means = torch.tensor([0.3, -0.2, 0.1][:lv])
    f.theta_stds = torch.tensor([1.2, 0.8, 1.0][:lv])
    return f


def link(method="spline", inverted=False, k=0):
    from irtorch.rescale import LinkCommonItems
    from irtorch.models import BaseIRTModel
    from mc import models as B
    s = LinkCommonItems(B.build("2PL", 1, [2, 2], None, 0), B.build("2PL", 1, [2, 2], None, 1), [0], [1], method=method,
                        inverted=inverted, **({"neurons": 9} if method == "neuralnet" else {}))
    with torch.no_grad():
        net, = [v for v in vars(s).values() if isinstance(v, torch.nn.Module) and not isinstance(v, BaseIRTModel)]
        for j, (n, p) in enumerate(sorted(net.named_parameters())):
            if "output_bound" in n:
                p.add_(0.3 * (j - 0.7 * k))          # the spline's end points stay ordered
                continue
            p.copy_(torch.tensor([0.5 * torch.sin(torch.tensor(1.3 * i + j + k)).item() for i in range(p.numel())]).reshape(p.shape))
    return s


def rotate(model, angle=0.6, skew=0.25):
    import math
    lv = model.latent_variables
    R = torch.eye(lv)
    R[0, 0] = math.cos(angle)
    if lv > 1:
        R[0, 1], R[1, 0], R[1, 1] = -math.sin(angle) + skew, math.sin(angle), math.cos(angle)
    return Rotate(model, rotation_matrix=R)


def stack(name, model):
    """Named stacks of invertible scales with known Jacobians."""
    lv = model.latent_variables
    A = [[1.5, 0.4, 0.], [-0.3, 0.8, 0.2], [0.1, 0., 1.2]]
    aff = Affine([r[:lv] for r in A[:lv]], [0.5, -1., 0.25][:lv])
    rev = Reverse([True, False, True][:lv])
    table = {"": [], "A": [aff], "S": [Sinh()], "H": [Shear()], "R": [rev], "O": [rotate(model)], "F": [flow(lv)]}
    out = []
    for c in name:
        out += table[c]
    return out
