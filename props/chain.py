"""A finished run: chain, log-probabilities and blobs of symbolic values."""
import numpy as np


class Sampler:
    """what the analysis functions read of an emcee.EnsembleSampler"""

    def __init__(self, chain, log_prob, blobs=None, **kw):
        self._chain, self._lp, self._bl = chain, log_prob, blobs
        self.acceptance_fraction = np.array([0.25, 0.5])
        self.run_info = {"n_walkers": chain.shape[1], "n_burn": 3, "n_run": chain.shape[0]}
        self.__dict__.update(kw)

    def _flat(self, v, flat):
        if flat:
            return v.reshape((v.shape[0] * v.shape[1],) + v.shape[2:])
        return v

    def get_chain(self, flat=False, **kw):
        return self._flat(self._chain, flat)

    def get_log_prob(self, flat=False, **kw):
        return self._flat(self._lp, flat)

    def get_blobs(self, flat=False, **kw):
        return None if self._bl is None else self._flat(self._bl, flat)


def array(ctx, vals, shape):
    return ctx.arr([v for v in vals]).reshape(shape)


def objects(items, shape):
    """object array of the given outputs, one tuple per sample"""
    n = len(items[0])
    out = np.empty(shape + (n,), dtype=object)
    for k, idx in enumerate(np.ndindex(shape)):
        for j in range(n):
            out[idx + (j,)] = items[k][j]
    return out


def argmax(vals):
    """index of the largest value (first of equals)"""
    b = 0
    for i in range(1, len(vals)):
        if bool(vals[i] > vals[b]):
            b = i
    return b


def ordered(vals):
    idx = []
    for i in range(len(vals)):
        j = len(idx)
        while j > 0 and bool(vals[i] < vals[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return [vals[i] for i in idx]


def percentile(vals, q):
    """linear interpolation between the order statistics"""
    s = ordered(vals)
    r = q / 100.0 * (len(s) - 1)
    k = min(int(r), len(s) - 2) if len(s) > 1 else 0
    if len(s) == 1:
        return s[0]
    return s[k] + (s[k + 1] - s[k]) * (r - k)
