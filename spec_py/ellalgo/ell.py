import numpy as np

from .cutting_plane import CutStatus
from .ell_calc import EllCalc


class Ell:
    def __init__(self, kappa, mq, xc, no_defer_trick=False):
        if mq.ndim != 2 or xc.ndim != 1:
            raise ValueError("dimensionality")
        if mq.shape != (xc.shape[0], xc.shape[0]):
            raise ValueError("shape")
        self.kappa = kappa
        self.mq = mq.copy()
        self.xc = xc.copy()
        self.no_defer_trick = no_defer_trick
        self.helper = EllCalc(xc.shape[0])
        self.tsq = 0.0

    @classmethod
    def new_with_matrix(cls, kappa, mq, xc):
        return Ell(kappa, mq, xc)

    @classmethod
    def new(cls, val, xc):
        return Ell(1.0, np.diag(val), xc)

    @classmethod
    def new_with_scalar(cls, val, xc):
        return Ell(val, val * np.eye(xc.shape[0]), xc)

    def _apply(self, grad, answer):
        status, (rho, sigma, delta) = answer
        if status != CutStatus.SUCCESS:
            return status
        gt = self.mq @ grad
        omega = grad @ gt
        self.xc = self.xc - rho / omega * gt
        self.mq = self.mq - sigma / omega * np.outer(gt, gt)
        self.kappa = self.kappa * delta
        if self.no_defer_trick:
            self.mq = self.mq * self.kappa
            self.kappa = 1.0
        return status

    def _measure(self, grad):
        self.tsq = self.kappa * (grad @ (self.mq @ grad))

    def update_bias_cut(self, cut):
        grad, beta = cut
        self._measure(grad)
        if isinstance(beta, (int, float)):
            return self._apply(grad, self.helper.calc_bias_cut(beta, self.tsq))
        return self._apply(grad, self.helper.calc_single_or_parallel_bias_cut(beta, self.tsq))

    def update_central_cut(self, cut):
        grad, beta = cut
        self._measure(grad)
        if isinstance(beta, (int, float)):
            return self._apply(grad, self.helper.calc_central_cut(self.tsq))
        return self._apply(grad, self.helper.calc_single_or_parallel_central_cut(beta, self.tsq))

    def update_q(self, cut):
        grad, beta = cut
        self._measure(grad)
        if isinstance(beta, (int, float)):
            return self._apply(grad, self.helper.calc_bias_cut_q(beta, self.tsq))
        return self._apply(grad, self.helper.calc_single_or_parallel_q(beta, self.tsq))

    def get_xc(self):
        return self.xc.copy()

    def get_tsq(self):
        return self.tsq

    def set_xc(self, x):
        if x.shape != self.xc.shape:
            raise ValueError("shape")
        self.xc = x.copy()

    @property
    def ndim(self):
        return self.xc.shape[0]
