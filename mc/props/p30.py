"""P30: scoring with a fitted encoder against a hand-written encoder in float64."""
import itertools
import math
import torch
from mc.core import close, require, raises
from mc import models as B, scales as S

META = dict(
    title="Encoder scores are the trained encoder's output for each response pattern",
    statement="After fitting with an autoencoder, latent scores by 'NN' are the trained encoder, in evaluation mode, applied to the responses coded as in training: "
              "one-hot with missing responses all zero, or imputed by the method of the fit; training scores are the scores of the training data. A variational encoder's "
              "standard errors, credible intervals and samples are those of its normal posterior, carried through attached scales. Combinations that cannot be scored are refused.",
    over=["configurations", "inputs"],
    quant="(AE, VAE) x coding x imputation x batch normalization x encoder layers x models; for each, every response pattern with both missing codes",
    why="Tests score complete data with an untrained encoder or a replaced one and check shapes only.",
    files=["irtorch/models/base_irt_model.py", "irtorch/estimation_algorithms/ae.py", "irtorch/estimation_algorithms/vae.py", "irtorch/irt_dataset.py"],
    mech=[("scores", "BaseIRTModel.latent_scores, AE.theta_scores, VAE.theta_scores"), ("posterior", "VAE.latent_mean_se, latent_credible_interval, sample_latent_variables"),
          ("encoders", "estimation_algorithms/encoders")],
    technique="exhaustive enumeration of encoder configurations and response patterns against an independent float64 forward pass",
)
PARALLEL = True
BOUNDS = "2 algorithms x (one-hot with no/zero/mean/random incorrect imputation; integer with zero/mean/random incorrect) x batch normalization x 3 layer lists x 2 models (thorough 5); all 64 patterns of [2,2,2] or 100 of [3,2,3]"
ASSUMPTIONS = ["item means used for imputation are those of the data being scored"]
NAN = math.nan


def miss(x):
    return math.isnan(x) or x == -1


def coded(rows, cats, onehot):
    out = []
    for r in rows:
        if onehot:
            v = []
            for x, c in zip(r, cats):
                k = -1 if miss(x) else round(x)
                v += [1.0 if i == k else 0.0 for i in range(c)]
            out.append(v)
        else:
            out.append([float(x) for x in r])
    return torch.tensor(out, dtype=torch.float64)


def fills(row, cats, method, key, means):
    """All imputed versions of a row."""
    if method is None:
        return [row]
    opts = []
    for j, x in enumerate(row):
        if not miss(x):
            opts.append([x])
        elif method == "zero":
            opts.append([0.0])
        elif method == "mean":
            opts.append([means[j]])
        else:
            opts.append([float(c) for c in range(cats[j]) if c != key[j]])
    return [list(o) for o in itertools.product(*opts)]


def forward(alg, x, hidden, bn):
    """Layer by layer in float64, batch normalization with the running statistics.  Layers are taken in order of application."""
    lin = [m for m in alg.encoder.layers if isinstance(m, torch.nn.Linear)]
    bns = [m for m in alg.encoder.layers if isinstance(m, torch.nn.BatchNorm1d)]
    require(len(bns) == (len(hidden) if bn else 0), f"{len(bns)} batch normalization layers for {len(hidden)} hidden layers")
    d = lambda t: t.detach().double()
    for i in range(len(hidden)):
        require(lin[i].out_features == hidden[i], f"hidden layer {i} has {lin[i].out_features} neurons")
        x = x @ d(lin[i].weight).T + d(lin[i].bias)
        if bn:
            b = bns[i]
            x = (x - d(b.running_mean)) / (d(b.running_var) + b.eps).sqrt() * d(b.weight) + d(b.bias)
        x = torch.where(x > 0, x, torch.expm1(x))
    if hasattr(alg.encoder, "mu_layer"):
        m, s = alg.encoder.mu_layer, alg.encoder.sigma_layer
        return x @ d(m.weight).T + d(m.bias), (0.5 * (x @ d(s.weight).T + d(s.bias))).exp()
    return x @ d(lin[-1].weight).T + d(lin[-1].bias), None


def spread(alg):
    """Give the encoder weights and statistics that tell responses apart."""
    with torch.no_grad():
        for j, (n, p) in enumerate(sorted(alg.encoder.named_parameters())):
            p.copy_(B.wave(p.numel(), 2 * j, 0.6).reshape(p.shape))
        for j, (n, b) in enumerate(sorted(alg.encoder.named_buffers())):
            if "running_mean" in n:
                b.copy_(B.wave(b.numel(), j, 0.4))
            elif "running_var" in n:
                b.copy_(0.6 + B.wave(b.numel(), j, 0.5).abs())


MODELS = {
    "2PL": lambda: B.build("2PL", 1, [2, 2, 2]),
    "NRM2": lambda: B.build("NRM", 2, [3, 2, 3], mc_correct=[1, 0, 2]),
    "GRM2": lambda: B.build("GRM", 2, [3, 2, 3]),
    "NN": lambda: B.build("NN", 1, [3, 2, 3], separate="items"),
    "MIX": lambda: B.build("MIX", 1, [], parts=[("2PL", 1, [2]), ("GPC", 1, [3, 2])]),
}


def train_rows(cats, missing):
    rows = [[float((i * (j + 2) + i // 3 + j) % c) for j, c in enumerate(cats)] for i in range(12)]
    if missing:
        rows[1][0], rows[4][2], rows[7][1], rows[9][0] = NAN, NAN, -1.0, -1.0
    return rows


def run(ctx):
    from irtorch.estimation_algorithms import AE, VAE
    codings = [(True, None), (True, "zero"), (True, "mean"), (True, "random incorrect"), (False, "zero"), (False, "mean"), (False, "random incorrect")]
    names = ("2PL", "NRM2") if not ctx.thorough else tuple(MODELS)
    hiddens = ([4], [5, 3], [3, 4, 3])
    space = [(a, oh, imp, bn, h, nm) for a in ("AE", "VAE") for oh, imp in codings for bn in (False, True) for h in hiddens for nm in names]
    if not ctx.thorough:
        space += [(a, True, None, False, [4], nm) for a in ("AE", "VAE") for nm in ("GRM2", "NN", "MIX")]
    for a, oh, imp, bn, h, nm in ctx.each(space):
        if imp == "random incorrect" and MODELS[nm]().mc_correct is None:
            continue
        with ctx.case("encoder", algorithm=a, one_hot=oh, imputation=imp, batch_norm=bn, hidden=h, model=nm):
            m = MODELS[nm]()
            cats, key = m.item_categories, m.mc_correct
            alg = {"AE": AE, "VAE": VAE}[a]()
            torch.manual_seed(3)
            train = train_rows(cats, oh or imp is not None)
            m.fit(torch.tensor(train), algorithm=alg, one_hot_encoded=oh, imputation_method=imp, batch_normalization_encoder=bn,
                  hidden_layers_encoder=h, max_epochs=3, learning_rate=0.1, evaluation_interval_size=1, device="cpu")

            def expected(rows, with_se=False):
                cols = list(zip(*rows))
                means = []
                for c in cols:
                    v = [x for x in c if not miss(x)]
                    means.append(sum(v) / len(v) if v else NAN)
                return [forward(alg, coded(fills(r, cats, imp, key, means), cats, oh), h, bn) for r in rows]

            def compare(got, exp, what, which=0, tol=2e-5):
                for i, e in enumerate(exp):
                    alt = e[which]
                    dist = (alt - got[i].double()).abs().amax(1)
                    if len(alt) == 1:
                        close(got[i], alt[0], f"{what}, row {i}", atol=tol, rtol=1e-4)
                    else:
                        require(float(dist.min()) < tol * 5, f"{what}, row {i}: {got[i].tolist()} is none of {alt.tolist()}")

            if imp != "random incorrect":
                # the scores kept from training are those of the training data
                compare(alg.training_theta_scores, expected(train), "training scores", tol=5e-5)
                close(m.latent_scores(torch.tensor(train), theta_estimation="NN"), alg.training_theta_scores, "scores of the training data", atol=2e-5)
            for st in ("trained", "spread"):
                if st == "spread":
                    spread(alg)
                vals = [[float(v) for v in range(c)] + [NAN, -1.0] for c in cats]
                rows = [list(r) for r in itertools.product(*vals)]
                full = [r for r in rows if not any(map(miss, r))]
                data = torch.tensor(rows)
                torch.manual_seed(11)
                got = m.latent_scores(data, theta_estimation="NN")
                exp = expected(rows)
                compare(got, exp, "scores")
                got_full = m.latent_scores(torch.tensor(full), theta_estimation="NN", standard_errors=a == "VAE")
                exp_full = expected(full)
                if a == "VAE":
                    compare(got_full[0], exp_full, "complete scores")
                    compare(got_full[1], exp_full, "standard errors", which=1)
                    th, se = m.latent_scores(data, theta_estimation="NN", standard_errors=True)
                    compare(th, exp, "scores with standard errors")
                    compare(se, exp, "standard errors of patterns with missing responses", which=1)
                    enc = coded(full, cats, oh).float()
                    for alpha in (0.05, 0.5):
                        lo, mid, hi = alg.latent_credible_interval(enc, alpha=alpha)
                        q = torch.distributions.Normal(0., 1.).icdf(torch.tensor(1 - alpha / 2)).item()
                        mu = torch.cat([e[0] for e in exp_full])
                        sd = torch.cat([e[1] for e in exp_full])
                        close(lo, mu - q * sd, f"lower {alpha}", atol=2e-4)
                        close(mid, mu, f"middle {alpha}", atol=2e-4)
                        close(hi, mu + q * sd, f"upper {alpha}", atol=2e-4)
                else:
                    compare(got_full, exp_full, "complete scores")
                if imp != "mean":
                    for i in range(0, len(full), 5):
                        one = m.latent_scores(torch.tensor(full[i]), theta_estimation="NN")
                        compare(one, [exp_full[i]], "single respondent")
                ctx.step(len(rows) + len(full))
            for s in ("A", "H", "SA"):
                mm = m
                mm.detach_scale_transformations() if hasattr(mm, "detach_scale_transformations") else mm.scale.clear()
                for sc in S.stack(s, mm):
                    mm.add_scale_transformation(sc)
                raw = mm.latent_scores(torch.tensor(full), theta_estimation="NN", rescale=False)
                compare(raw, exp_full, f"original scores under scales {s}")
                close(mm.latent_scores(torch.tensor(full), theta_estimation="NN"), mm.transform_theta(raw), f"scores on the scales {s}", atol=5e-5)
                if a == "VAE":
                    th, se = mm.latent_scores(torch.tensor(full), theta_estimation="NN", standard_errors=True)
                    J = mm.theta_transform_jacobian(raw).double()
                    sd = torch.cat([e[1] for e in exp_full])
                    want = torch.einsum("nij,nj->ni", J ** 2, sd ** 2).sqrt()
                    close(se, want, f"standard errors on the scales {s}", atol=1e-4, rtol=1e-3)
                ctx.step(2)
            ctx.state(a, oh, imp, bn, h, nm)
    # sampling from the encoder
    for nm in ctx.each(list(names)):
        for oh in (True, False):
            with ctx.case("samples", model=nm, one_hot=oh):
                m = MODELS[nm]()
                cats = m.item_categories
                alg = VAE()
                torch.manual_seed(3)
                train = train_rows(cats, False)
                m.fit(torch.tensor(train), algorithm=alg, one_hot_encoded=oh, imputation_method="zero", hidden_layers_encoder=[4], max_epochs=1, device="cpu")
                spread(alg)
                with torch.no_grad():
                    alg.encoder.sigma_layer.weight.zero_()
                    alg.encoder.sigma_layer.bias.fill_(-50.0)
                for data in (None, torch.tensor(train[:5])):
                    src = train if data is None else train[:5]
                    mu = forward(alg, coded(src, cats, oh), [4], False)[0]
                    torch.manual_seed(1)
                    got = alg.sample_latent_variables(m, 3000, data).double()
                    require(got.shape == (3000, m.latent_variables), f"shape of samples {tuple(got.shape)}")
                    d = (got.unsqueeze(1) - mu.unsqueeze(0)).abs().amax(2)
                    require(float(d.amin(1).max()) < 1e-4, "a sample far from every respondent's posterior")
                    uniq = [i for i in range(len(src)) if all(float((mu[i] - mu[k]).abs().max()) > 1e-3 for k in range(len(src)) if k != i)]
                    for i in uniq:
                        share = float((d[:, i] < 1e-4).double().mean())
                        p = 1 / len(src)
                        require(abs(share - p) < 6 * math.sqrt(p / 3000), f"respondent {i} drawn with frequency {share} instead of {p}")
                with torch.no_grad():
                    alg.encoder.sigma_layer.bias.fill_(0.6)
                one = torch.tensor(train[:1])
                mu, sd = forward(alg, coded(train[:1], cats, oh), [4], False)
                torch.manual_seed(2)
                got = alg.sample_latent_variables(m, 6000, one).double()
                close(got.mean(0), mu[0], "mean of the samples", atol=0.12, rtol=0)
                close(got.std(0), sd[0], "standard deviation of the samples", rtol=0.06, atol=0)
                ctx.state("samples", nm, oh)
    # what cannot be scored is refused
    for nm in ctx.each(list(names)):
        with ctx.case("refused", model=nm):
            m = MODELS[nm]()
            cats = m.item_categories
            full = torch.tensor(train_rows(cats, False))
            for alg in (AE(), VAE()):
                raises(lambda: MODELS[nm]().fit(full, algorithm=alg, one_hot_encoded=False, max_epochs=1, device="cpu"), "integer coding without imputation", ValueError)
            from irtorch.estimation_algorithms import JML
            j = JML()
            m.algorithm = j
            raises(lambda: m.latent_scores(full, theta_estimation="NN"), "NN scores without an encoder", ValueError)
            m2 = MODELS[nm]()
            torch.manual_seed(0)
            m2.fit(full, algorithm=AE(), max_epochs=1, device="cpu")
            raises(lambda: m2.latent_scores(full, theta_estimation="EAP", standard_errors=True), "standard errors of EAP scores", ValueError)
            raises(lambda: m2.latent_scores(full, theta_estimation="MAP", standard_errors=True), "standard errors of MAP scores", ValueError)
            ctx.state("refused", nm)
