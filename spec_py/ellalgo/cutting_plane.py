from enum import Enum
from typing import Protocol, runtime_checkable


class CutStatus(Enum):
    SUCCESS = "success"
    NO_SOLN = "no_solution"
    NO_EFFECT = "no_effect"
    UNKNOWN = "unknown"


class Options:
    def __init__(self, max_iters=2000, tolerance=1e-20):
        self.max_iters = max_iters
        self.tolerance = tolerance

    @classmethod
    def default(cls):
        return Options()


@runtime_checkable
class OracleFeas(Protocol):
    def assess_feas(self, xc):
        ...


@runtime_checkable
class OracleOptim(Protocol):
    def assess_optim(self, xc, gamma):
        ...


def cutting_plane_feas(oracle, space, options=None):
    if options is None:
        options = Options()
    k = 0
    while k < options.max_iters:
        point = space.xc()
        cut = oracle.assess_feas(point)
        if cut is None:
            return CutStatus.SUCCESS, point, k
        status = space.update_bias_cut(cut)
        if status != CutStatus.SUCCESS:
            return status, point, k
        if space.tsq() < options.tolerance:
            return CutStatus.SUCCESS, space.xc(), k
        k = k + 1
    return CutStatus.UNKNOWN, space.xc(), options.max_iters


def cutting_plane_optim(oracle, space, options=None):
    if options is None:
        options = Options()
    gamma = float("inf")
    k = 0
    while k < options.max_iters:
        point = space.xc()
        cut, done = oracle.assess_optim(point, gamma)
        if done:
            return CutStatus.SUCCESS, point, gamma, k
        status = space.update_bias_cut(cut)
        if status != CutStatus.SUCCESS:
            return status, point, gamma, k
        if space.tsq() < options.tolerance:
            return CutStatus.SUCCESS, space.xc(), gamma, k
        k = k + 1
    return CutStatus.UNKNOWN, space.xc(), gamma, options.max_iters


def cutting_plane(oracle, space, options=None):
    if isinstance(oracle, OracleFeas):
        status, point, k = cutting_plane_feas(oracle, space, options)
        return status, point, None, k
    return cutting_plane_optim(oracle, space, options)


def binary_search(oracle, lower, upper, options=None):
    if options is None:
        options = Options()
    k = 0
    while k < options.max_iters:
        mid = (lower + upper) / 2
        if upper - lower < options.tolerance:
            return CutStatus.SUCCESS, mid, k
        if oracle.assess_bs(mid):
            upper = mid
        else:
            lower = mid
        k = k + 1
    return CutStatus.UNKNOWN, (lower + upper) / 2, options.max_iters
