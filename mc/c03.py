"""C03: finite distributions enumerated outcome by outcome; normal percentiles against an independent quantile."""
import itertools, math
from statistics import NormalDist
from actuarialmath import Life, LifeTable
from .sigs import signatures

ASSUMPTIONS = ["probabilities, values and weights come from fixed alphabets; up to 2^N outcomes are enumerated"]
PS = [0.0, 0.02, 0.25, 0.5, 0.7, 1.0]
VS = [-3.0, 0.0, 0.5, 1.0, 100.0]


def moments(pairs):
    """mean and variance of a finite distribution given as (probability, value) outcomes"""
    m = math.fsum(p * x for p, x in pairs)
    return m, math.fsum(p * (x - m) ** 2 for p, x in pairs)


def binom_outcomes(ck, p, N):
    out = []
    for bits in itertools.product((0, 1), repeat=N):
        w = 1.0
        for b in bits:
            w *= p if b else 1 - p
        ck.step()
        out.append((w, sum(bits)))
    return out


def explore(ck):
    signatures(ck, "Life")
    for p in PS:
        for a in VS:
            for b in VS:
                ck.visit("bern", p, a, b)
                ck.step(2)
                m, v = moments([(p, a), (1 - p, b)])
                k = dict(p=p, a=a, b=b)
                ck.eq("bernoulli.mean", k, lambda: Life.bernoulli(p, a=a, b=b), m)
                ck.eq("bernoulli.variance", k, lambda: Life.bernoulli(p, a=a, b=b, variance=True), v)
                ck.eq("bernoulli.positional", k, lambda: Life().bernoulli(p, a, b, True), v)
        ck.eq("bernoulli.default", dict(p=p), lambda: [Life.bernoulli(p), Life.bernoulli(p, variance=True)], [p, p * (1 - p)])
        ck.eq("bernoulli.default_b", dict(p=p), lambda: [Life.bernoulli(p, a=7), Life.bernoulli(p, 7, variance=True)],
              [7 * p, 49 * p * (1 - p)])
    nmax = 9 if ck.thorough else 7
    for p in PS:
        for N in range(1, nmax + 1):
            ck.visit("binom", p, N)
            m, v = moments(binom_outcomes(ck, p, N))
            ck.eq("binomial.mean", dict(p=p, N=N), lambda: Life.binomial(p, N), m, 1e-9, 1e-12)
            ck.eq("binomial.variance", dict(p=p, N=N), lambda: Life.binomial(p=p, N=N, variance=True), v, 1e-9, 1e-12)
    for p in PS:
        for p1 in PS:
            for p2 in PS:
                for N in range(1, nmax - 1):
                    ck.visit("mix", p, p1, p2, N)
                    out = [(p * w, x) for w, x in binom_outcomes(ck, p1, N)] + \
                          [((1 - p) * w, x) for w, x in binom_outcomes(ck, p2, N)]
                    m, v = moments(out)
                    k = dict(p=p, p1=p1, p2=p2, N=N)
                    ck.eq("mixture.mean", k, lambda: Life.mixture(p, p1, p2, N=N), m, 1e-9, 1e-10)
                    ck.eq("mixture.variance", k, lambda: Life.mixture(p, p1, p2, N=N, variance=True), v, 1e-9, 1e-10)
                    ck.eq("conditional_variance", k, lambda: Life.conditional_variance(p, p1, p2, N=N), v, 1e-9, 1e-10)
                ck.eq("mixture.default", dict(p=p, p1=p1, p2=p2), lambda: [Life.mixture(p=p, p1=p1, p2=p2), Life.conditional_variance(p=p, p1=p1, p2=p2)],
                      [p * p1 + (1 - p) * p2, moments([(p * p1 + (1 - p) * p2, 1), (1 - p * p1 - (1 - p) * p2, 0)])[1]])
    # weighted sums of two variables on every 3-point joint distribution of the alphabet
    joint = [(0.25, 0.25, 0.5), (0.0, 0.5, 0.5), (0.125, 0.625, 0.25), (1.0, 0.0, 0.0)]
    xs = [(0.0, 1.0, 2.0), (-1.0, 1.0, 4.0), (3.0, 3.0, 0.0)]
    for pr in joint:
        for X in xs:
            for Y in xs:
                ex, vx = moments(list(zip(pr, X)))
                ey, vy = moments(list(zip(pr, Y)))
                exy = math.fsum(p * x * y for p, x, y in zip(pr, X, Y))
                cov = math.fsum(p * (x - ex) * (y - ey) for p, x, y in zip(pr, X, Y))
                ck.visit("joint", pr, X, Y)
                ck.step(3)
                k = dict(pr=pr, X=X, Y=Y)
                ck.eq("covariance", k, lambda: Life.covariance(a=ex, b=ey, ab=exy), cov)
                for a in (-2.0, 0.0, 1.0, 3.0):
                    for b in (-1.0, 0.0, 0.5, 2.0):
                        _, v = moments([(p, a * x + b * y) for p, x, y in zip(pr, X, Y)])
                        ck.eq("variance", dict(k, a=a, b=b), lambda: Life.variance(a, b, var_a=vx, var_b=vy, cov_ab=cov), v)
    # portfolio normal approximation
    probs = [0.001, 0.025, 0.05, 0.2, 0.5, 0.8, 0.95, 0.975, 0.995]
    for mean in (-50.0, 0.0, 3.0, 1000.0):
        for var in (0.25, 1.0, 400.0):
            for N in (1, 2, 10, 1000):
                # mean/variance of a sum of N copies, added one copy at a time
                sm = sv = 0.0
                for _ in range(N):
                    sm += mean
                    sv += var
                ck.step(N)
                ck.visit("port", mean, var, N)
                nd = NormalDist(sm, math.sqrt(sv))
                for pr in probs:
                    k = dict(mean=mean, var=var, N=N, prob=pr)
                    val = nd.inv_cdf(pr)
                    ck.eq("portfolio_percentile", k, lambda: Life.portfolio_percentile(mean, var, pr, N=N), val, 1e-8, 1e-8)
                    ck.eq("portfolio_cdf", k, lambda: Life.portfolio_cdf(mean, var, val, N=N), pr, 1e-8, 1e-10)
                    ck.eq("portfolio.inverse", k, lambda: Life.portfolio_cdf(mean=mean, variance=var, N=N,
                          value=Life.portfolio_percentile(mean=mean, variance=var, prob=pr, N=N)), pr, 1e-8, 1e-10)
            for pr in probs:
                ck.eq("portfolio.one", dict(mean=mean, var=var, prob=pr), lambda: [Life.portfolio_percentile(mean, var, pr),
                      Life.portfolio_cdf(mean, var, mean + 1)], [NormalDist(mean, math.sqrt(var)).inv_cdf(pr),
                      NormalDist(mean, math.sqrt(var)).cdf(mean + 1)], 1e-8, 1e-8)
    def frame(q):
        f = Life.quantiles_frame(q) if q else Life.quantiles_frame()
        return [list(map(float, f.columns)), [float(x) for x in f.iloc[0]], list(f.index)]
    for q in (None, [0.9], [0.5, 0.75, 0.99], probs):
        qs = q or [.8, .85, .9, .95, .975, .99, .995]
        ck.eq("quantiles_frame", dict(q=q), lambda: frame(q), [[NormalDist().inv_cdf(x) for x in qs], qs, ["Pr(Z<=z)"]], 0, 6e-4)
