import numpy as np

from ..cutting_plane import OracleFeas


class LmiOracle(OracleFeas):
    def __init__(self, F0, F_matrices):
        n = F0.shape[0]
        if F0.shape != (n, n):
            raise ValueError("F0")
        self.F0 = F0.copy()
        self.F_matrices = [F.copy() for F in F_matrices]
        for F in self.F_matrices:
            if F.shape != (n, n):
                raise ValueError("F")

    def assess_feas(self, xc):
        F = self.F0.copy()
        for k in range(len(self.F_matrices)):
            if k < len(xc):
                F = F + xc[k] * self.F_matrices[k]
        vals, vecs = np.linalg.eigh(F)
        if vals[0] >= 0:
            return None
        v = vecs[:, 0]
        grad = np.zeros(len(xc))
        for k in range(len(self.F_matrices)):
            if k < len(xc):
                grad[k] = v @ self.F_matrices[k] @ v
        return grad, vals[0]
