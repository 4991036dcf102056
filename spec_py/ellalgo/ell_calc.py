import numpy as np

from .cutting_plane import CutStatus

REFUSED = (0.0, 0.0, 1.0)


class EllCalcCore:
    def __init__(self, n_f):
        self.n_f = n_f
        self.n_plus_1 = n_f + 1
        self.half_n = n_f / 2
        self.inv_n = 1 / n_f
        self.cst1 = n_f**2 / (n_f**2 - 1)
        self.cst2 = 2 / (n_f + 1)

    def calc_parallel_bias_cut_fast(self, beta0, beta1, tsq, eta, beta_sq):
        mid = (beta0 + beta1) / 2
        h = (tsq + beta_sq) / 2 + self.n_f * mid**2
        k = h + np.sqrt(h**2 - (self.n_f + 1) * eta * beta_sq)
        sigma = eta / k
        return mid * sigma, sigma, (tsq + (beta_sq * sigma - beta0 * beta1) * (eta / (k - eta))) / tsq

    def calc_parallel_bias_cut(self, beta0, beta1, tsq):
        return self.calc_parallel_bias_cut_fast(beta0, beta1, tsq, self.cst1, beta0 * beta1)

    def calc_parallel_central_cut(self, beta1, tsq):
        return self.calc_parallel_bias_cut_fast(-beta1, beta1, tsq, self.cst1, -(beta1**2))

    def calc_central_cut(self, tsq):
        n = self.n_f
        return 0.0, 2 / (n + 1), n**2 / (n + 1) ** 2


class EllCalc:
    def __init__(self, n):
        self.n = float(n)
        self.core = EllCalcCore(float(n))

    def calc_single_or_parallel_bias_cut(self, beta_pair, tsq):
        b0, b1 = beta_pair
        if b1 is None:
            return self.calc_bias_cut(b0, tsq)
        return self.calc_parallel_bias_cut(b0, b1, tsq)

    def calc_single_or_parallel_central_cut(self, beta_pair, tsq):
        b0, b1 = beta_pair
        if b1 is None:
            return self.calc_central_cut(tsq)
        return self.calc_parallel_central_cut(b1, tsq)

    def calc_single_or_parallel_q(self, beta_pair, tsq):
        b0, b1 = beta_pair
        if b1 is None:
            return self.calc_bias_cut_q(b0, tsq)
        return self.calc_parallel_q(b0, b1, tsq)

    def calc_parallel_bias_cut(self, beta0, beta1, tsq):
        if tsq <= 0:
            return CutStatus.NO_EFFECT, REFUSED
        if beta0 * beta1 <= 0:
            return CutStatus.NO_SOLN, REFUSED
        return CutStatus.SUCCESS, self.core.calc_parallel_bias_cut(beta0, beta1, tsq)

    def calc_parallel_q(self, beta0, beta1, tsq):
        if tsq <= 0:
            return CutStatus.NO_EFFECT, REFUSED
        if beta0 * beta1 <= 0:
            return CutStatus.NO_SOLN, REFUSED
        return CutStatus.SUCCESS, self.core.calc_parallel_bias_cut_fast(beta0, beta1, tsq, 1 / (self.n + 1), beta0 * beta1)

    def calc_parallel_central_cut(self, beta1, tsq):
        if tsq <= 0:
            return CutStatus.NO_EFFECT, REFUSED
        return CutStatus.SUCCESS, self.core.calc_parallel_central_cut(beta1, tsq)

    def calc_bias_cut(self, beta, tsq):
        if tsq <= 0:
            return CutStatus.NO_EFFECT, REFUSED
        if beta >= 0:
            return CutStatus.NO_SOLN, REFUSED
        tau = np.sqrt(tsq)
        if tau + beta <= 0:
            return CutStatus.NO_EFFECT, REFUSED
        n = self.n
        sigma = 2 * (n + 1) * (tau + beta) / (n * (tau + beta) + 2 * tau)
        delta = (n / (n + 1)) ** 2 * (1 - beta**2 / tsq)
        return CutStatus.SUCCESS, (beta, sigma, delta)

    def calc_bias_cut_q(self, beta, tsq):
        if tsq <= 0:
            return CutStatus.NO_EFFECT, REFUSED
        if beta >= 0:
            return CutStatus.NO_SOLN, REFUSED
        tau = np.sqrt(tsq)
        if tau + beta <= 0:
            return CutStatus.NO_EFFECT, REFUSED
        n = self.n
        sigma = 2 * (tau + beta) / (n * (tau + beta) + 2 * tau)
        delta = (n / (n + 1)) ** 2 * (1 - beta**2 / tsq)
        return CutStatus.SUCCESS, (beta / (n + 1), sigma, delta)

    def calc_central_cut(self, tsq):
        if tsq <= 0:
            return CutStatus.NO_EFFECT, REFUSED
        return CutStatus.SUCCESS, self.core.calc_central_cut(tsq)
