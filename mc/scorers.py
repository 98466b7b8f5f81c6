"""Reference likelihoods and algorithm states for scoring checks."""
import math
import torch


def loglik(model, theta, data, cats):
    """float64 log-likelihood of every row of data at every row of theta, missing (nan or -1) responses left out:
    (rows, thetas).  Log-probabilities in the far tail are floored where float32 probabilities underflow."""
    with torch.no_grad():
        P = model.item_probabilities(theta).double().clamp_min(1e-45)
    out = torch.zeros(len(data), len(theta), dtype=torch.float64)
    for i, row in enumerate(data.tolist()):
        for j, x in enumerate(row):
            if math.isnan(x) or x == -1:
                continue
            out[i] += P[:, j, int(x)].log()
    return out


def normal_logpdf(x, cov):
    x = x.double()
    prec = torch.linalg.inv(cov)
    q = torch.einsum("ni,ij,nj->n", x, prec, x)
    return -0.5 * (q + torch.logdet(cov) + x.shape[1] * math.log(2 * math.pi))


TRAIN = [[-1.4, -1.3], [-0.7, -0.2], [-0.2, -0.6], [0.1, 0.3], [0.8, 0.4], [1.7, 1.5], [0.4, 0.9]]     # correlated


def algorithm(state, lv):
    """none: never fitted; unfit: an algorithm object without results; cov: as MML leaves it; train: as JML leaves it."""
    from irtorch.estimation_algorithms import JML, MML
    if state == "none":
        return None
    if state == "unfit":
        return MML()
    if state == "cov":
        a = MML()
        a.covariance_matrix = torch.tensor([[1.3, 0.4], [0.4, 0.8]])[:lv, :lv].clone()
        return a
    a = JML()
    a.training_theta_scores = torch.tensor(TRAIN)[:, :lv].clone()
    return a
