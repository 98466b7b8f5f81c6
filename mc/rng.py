"""Exact distribution of a randomised function: all answers of the random generators it consults are enumerated with their
probabilities (torch.multinomial, torch.bernoulli).  A function that draws in some other way is not resolved."""
import torch


class Unresolved(Exception):
    pass


class _Run:
    def __init__(self, prefix):
        self.prefix, self.trail, self.p = prefix, [], 1.0

    def choose(self, weights):
        i = len(self.trail)
        opts = [k for k, w in enumerate(weights) if w > 0]
        if not opts:
            raise ValueError("no outcome has a positive probability")
        k = self.prefix[i] if i < len(self.prefix) else 0
        self.trail.append((k, len(opts)))
        self.p *= weights[opts[k]]
        return opts[k]

    def multinomial(self, input, num_samples, replacement=False, *, generator=None, out=None):
        x = input.reshape(-1, input.shape[-1]).double()
        if num_samples != 1 and not replacement:
            raise Unresolved("several draws without replacement")
        res = []
        for row in x:
            if bool((row < 0).any()) or not bool(torch.isfinite(row).all()):
                raise RuntimeError("probability tensor contains either inf, nan or element < 0")
            w = (row / row.sum()).tolist()
            res.append([self.choose(w) for _ in range(num_samples)])
        return torch.tensor(res).reshape(*input.shape[:-1], num_samples)

    def bernoulli(self, input, *a, generator=None, out=None, **k):
        p = input if not a else torch.full_like(input, float(a[0]))
        v = []
        for q in p.reshape(-1).double().tolist():
            if not 0 <= q <= 1:
                raise RuntimeError("Expected p_in >= 0 && p_in <= 1")
            v.append(float(self.choose([1 - q, q])))
        return torch.tensor(v, dtype=input.dtype).reshape(input.shape)


def distribution(fn, limit=200000):
    """{outcome: probability} of fn(), outcome = nested tuple of the returned tensor."""
    old = torch.multinomial, torch.bernoulli
    out, prefix, runs = {}, [], 0
    while True:
        r = _Run(prefix)
        torch.multinomial, torch.bernoulli = r.multinomial, r.bernoulli
        state = torch.get_rng_state()
        try:
            v = fn()
        finally:
            torch.multinomial, torch.bernoulli = old
        if not torch.equal(state, torch.get_rng_state()):
            raise Unresolved("another random generator was used")
        key = tuple(tuple(x) for x in v.tolist())
        out[key] = out.get(key, 0.0) + r.p
        runs += 1
        if runs > limit:
            raise Unresolved("too many outcomes")
        t = r.trail
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return out, runs
        prefix = [k for k, _ in t]
        prefix[-1] += 1
