"""Statistical oracles with negligible false-alarm probability."""
import numpy as np
from scipy import stats as st

P_ALARM = 1e-10


def chisq_p(counts, probs):
    """p-value of observed category counts against probabilities."""
    counts = np.asarray(counts, dtype=float)
    probs = np.asarray(probs, dtype=float)
    probs = probs / probs.sum()
    n = counts.sum()
    exp = n * probs
    # pool small cells
    order = np.argsort(exp)
    c, e = [], []
    ac = ae = 0.
    for i in order:
        ac += counts[i]
        ae += exp[i]
        if ae >= 10:
            c.append(ac)
            e.append(ae)
            ac = ae = 0.
    if ae > 0:
        if c:
            c[-1] += ac
            e[-1] += ae
        else:
            c.append(ac)
            e.append(ae)
    if len(c) < 2:
        # a category with zero expectation but positive count?
        return 0. if np.any((probs <= 0) & (counts > 0)) else 1.
    if np.any((probs <= 0) & (counts > 0)):
        return 0.
    c, e = np.array(c), np.array(e)
    x = ((c - e) ** 2 / e).sum()
    return float(st.chi2.sf(x, len(c) - 1))


def binom_p(k, n, p):
    """Two-sided binomial p-value."""
    if p <= 0:
        return 1. if k == 0 else 0.
    if p >= 1:
        return 1. if k == n else 0.
    return float(min(1., 2 * min(st.binom.cdf(k, n, p),
                                 st.binom.sf(k - 1, n, p))))


def inclusion_p(counts, n_draws, probs):
    """Smallest Bonferroni-corrected binomial p over the items."""
    return min(1., len(counts) * min(
        binom_p(int(c), n_draws, float(p)) for c, p in zip(counts, probs)))


def ks_p(xs, cdf):
    return float(st.kstest(np.asarray(xs), cdf).pvalue)


def mean_p(xs, mu, sd):
    """z-test of the mean of iid samples with known sd."""
    xs = np.asarray(xs, dtype=float)
    z = (xs.mean() - mu) / (sd / np.sqrt(len(xs)))
    return float(2 * st.norm.sf(abs(z)))


def chi2_var_p(zs):
    """Two-sided test that iid normal samples of mean 0 have variance 1."""
    zs = np.asarray(zs, dtype=float)
    s = float((zs ** 2).sum())
    return float(min(1., 2 * min(st.chi2.cdf(s, len(zs)),
                                 st.chi2.sf(s, len(zs)))))
