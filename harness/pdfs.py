"""age distributions built by the real constructor from stand-in chronology and likelihood values (both modes)"""
import inspect


class Cf:
    """chronology whose sampled ages and rates are the given ones"""

    def __init__(self, np, ts, phi):
        self.np, self.ts, self.rate = np, ts, phi

    def a0(self, t):
        return t * 0. + 1.

    def t(self, a0=None, n1=None):
        return self.np.array(list(self.ts))

    def N1(self, t):
        return 10. + t * 0.

    def phi(self, t):
        return self.np.array(list(self.rate))


class Pf:
    """production function: density 2 at the lower limit, 1 at the upper"""

    range = [1e-4, 2e3]

    def __init__(self, np):
        self.np = np

    def evaluate(self, presentation, d, a0=None):
        return self.np.array([2., 1.])

    def C(self, d, a0):
        return self.evaluate('cumulative', d, a0)

    def C10(self, d10, a0):
        return self.np.log10(self.evaluate('cumulative', None, a0))


class Cc:
    diam = None
    perimeter = None
    area = 1.


class NotApplicable(Exception):
    pass


def make(I, ts, phi, P, k=3):
    """Craterpdf with sampled ages ts, rates phi and likelihoods P"""
    np, n = I.np, len(ts)
    calls = []

    def poisson(k_, lam, cumulative=False):
        calls.append((k_, lam))
        if len(lam) != n or cumulative:
            raise NotApplicable
        return np.array(list(P))
    C = I.cst.Craterpdf
    if 'n_samples' not in inspect.signature(C.__init__).parameters:
        return None, None
    real = I.gm.poisson
    I.gm.poisson = poisson
    try:
        p = C(Pf(np), Cf(np, ts, phi), Cc(), [1., 2.], k=k, n_samples=n)
    except NotApplicable:
        return None, None
    finally:
        I.gm.poisson = real
    if len(calls) != 1:
        return None, None       # likelihoods not taken from gm.poisson: the stand-in does not apply
    return p, calls[0]


def masses(ts, phi, P):
    """unnormalised probability of each sample"""
    w = [ts[1] - ts[0]] + [b - a for a, b in zip(ts, ts[1:])]
    return [p * f * x for p, f, x in zip(P, phi, w)]
