"""Small functions over the Python and numpy items the engine models (see tools/modeltest_py.py)."""
import math
from dataclasses import dataclass
from enum import Enum
from typing import Optional, Tuple, Union

import numpy as np


def add(v, w, M, n, x): return v + w
def sub_scalar(v, w, M, n, x): return v - x
def rsub(v, w, M, n, x): return x - v
def mul(v, w, M, n, x): return v * w * 2
def divs(v, w, M, n, x): return v / 4
def floordiv(v, w, M, n, x): return (n // 2, n % 2, -n // 2, -n % 3, 7 // 2)
def fdiv(v, w, M, n, x): return (x // 2, x % 2)
def pow2(v, w, M, n, x): return v ** 2 + x ** 2
def matmul(v, w, M, n, x): return M @ v
def vmatmul(v, w, M, n, x): return v @ M
def quad(v, w, M, n, x): return v @ M @ v
def dot(v, w, M, n, x): return np.dot(v, w), v.dot(w), np.dot(M, v)
def outer(v, w, M, n, x): return np.outer(v, w)
def mm(v, w, M, n, x): return M @ M.T
def transpose(v, w, M, n, x): return M.T + M
def iadd(v, w, M, n, x):
    a = v.copy()
    a += w
    return a
def iadd_alias(v, w, M, n, x):
    a = v
    b = a
    a = a + 1
    return b
def isub_matrix(v, w, M, n, x):
    A = M.copy()
    A -= np.outer(v, v) * x
    return A
def imul(v, w, M, n, x):
    A = M.copy()
    A *= x
    return A
def slices(v, w, M, n, x): return v[1:], v[:2], v[-1], v[0]
def slice_set(v, w, M, n, x):
    a = v.copy()
    a[0] = x
    a[1:] += 1
    return a
def row(v, w, M, n, x): return M[0], M[:, 1], M[1, 0], M[-1, -1]
def row_set(v, w, M, n, x):
    A = M.copy()
    A[0] = v
    A[1, 1] = x
    return A
def loops(v, w, M, n, x):
    s = 0.0
    for i in range(len(v)):
        s = s * 0.5 + v[i]
    return s
def loop_enum(v, w, M, n, x):
    s = 0.0
    for i, a in enumerate(v):
        s += i * a
    return s
def loop_zip(v, w, M, n, x):
    s = 0.0
    for a, b in zip(v, w):
        if a > b:
            s += a
        elif a == b:
            continue
        else:
            s -= b
    return s
def loop_break(v, w, M, n, x):
    for i in range(len(v)):
        if v[i] > x:
            break
    else:
        return -1
    return i
def loop_ret(v, w, M, n, x):
    for i in range(len(v)):
        if v[i] > x:
            return i, v[i]
    return None
def while_loop(v, w, M, n, x):
    k = 0
    while k < n:
        x = x / 2 + 1
        k += 1
    return k, x
def ternary(v, w, M, n, x): return x if x > 0 else -x
def chained(v, w, M, n, x): return (0 < x < 2, 0 <= x <= 2, n == 1 != 2)
def boolops(v, w, M, n, x): return (x > 0 and n > 1, x > 0 or n > 1, not x > 0)
def truthy(v, w, M, n, x): return (1 if x else 2, 1 if n else 2)
def or_default(v, w, M, n, x): return (x or 5.0, n or 7, x and 3.0)
def opt(v, w, M, n, x):
    a: Optional[float] = None if n > 1 else x
    if a is None:
        return -1.0
    return a * 2
def tup(v, w, M, n, x):
    a, b = x, n
    a, b = b, a
    return a, b
def star(v, w, M, n, x):
    a, *r = (x, n, 3)
    return a, r[0], len(r)
def inst(v, w, M, n, x): return (isinstance(x, float), isinstance(x, (int, float)), isinstance(x, tuple), isinstance(n, int))
def sums(v, w, M, n, x): return (np.sum(v), v.sum(), sum([1, 2, n]), np.sum(v * w))
def minmax(v, w, M, n, x): return (min(x, 1.0), max(x, n, 2), np.minimum(x, 1.0), np.max(v), v.min(), np.argmax(v), np.argmin(v))
def maths(v, w, M, n, x): return (math.sqrt(x * x), abs(x), np.abs(x), np.exp(x), math.exp(x), np.sqrt(x * x + 1), math.floor(x), math.ceil(x), round(x), np.sign(x), math.pow(x, 2), math.hypot(x, 1.0), np.square(x))
def logs(v, w, M, n, x): return (math.log(x * x + 1), np.log(x * x + 1), np.log(v * v + 1))
def casts(v, w, M, n, x): return (int(x), float(n), bool(n), float(x))
def zeros(v, w, M, n, x): return np.zeros(2), np.zeros(len(v)), np.zeros((2, 3)), np.ones(2), np.eye(3), np.full(2, x), np.zeros_like(v), np.ones_like(M)
def diag(v, w, M, n, x): return np.diag(v)
def diag2(v, w, M, n, x): return np.diag(M), np.trace(M)
def arr(v, w, M, n, x): return np.array([x, 1.0, n]), np.array([[x, 1.0], [2.0, 3.0]])
def shape(v, w, M, n, x): return (v.shape[0], M.shape, len(v), v.ndim, M.ndim, M.size, v.size, len(M))
def norm(v, w, M, n, x): return np.linalg.norm(v), np.linalg.norm(v) ** 2
def allclose(v, w, M, n, x): return np.array_equal(v, w)
def whr(v, w, M, n, x): return np.where(v > x, v, 0.0)
def anyall(v, w, M, n, x): return np.any(v > x), np.all(v > x)
def mask(v, w, M, n, x): return (v > x).sum()
def fromlist(v, w, M, n, x): return np.array([a * 2 for a in v])
def listcomp(v, w, M, n, x): return [a + x for a in v if a > 0]
def genexp(v, w, M, n, x): return sum(a * b for a, b in zip(v, w))
def genany(v, w, M, n, x): return any(a > x for a in v), all(a > x for a in v)
def lst(v, w, M, n, x):
    o = []
    for a in v:
        o.append(a + 1)
    return o
def lst2(v, w, M, n, x):
    o = [1.0] * 3
    o[1] = x
    return o
def dct(v, w, M, n, x):
    d = {"a": x, "b": n}
    return d["a"] + d.get("b", 0)
def lam(v, w, M, n, x):
    f = lambda a: a * x + n
    return f(2) + f(3)
def inner(v, w, M, n, x):
    def g(a, b=2):
        return a * b + x
    return g(1), g(1, b=3)
def fstr(v, w, M, n, x):
    if x < 0:
        raise ValueError(f"negative {x}")
    return x
def tryexc(v, w, M, n, x):
    try:
        if x < 0:
            raise ValueError("neg")
        r = 1
    except ValueError:
        r = 2
    return r
def asserts(v, w, M, n, x):
    assert n != 2, "two"
    return n
def walrus(v, w, M, n, x):
    if (y := x * 2) > 1:
        return y
    return -y
def augm(v, w, M, n, x):
    x += 1
    x *= 2
    x -= n
    x /= 4
    n += 2
    n *= 3
    n //= 2
    n %= 5
    return x, n
def reshape(v, w, M, n, x): return v.reshape(-1, 1) @ v.reshape(1, -1)
def newaxis(v, w, M, n, x): return v[:, None] * v[None, :]
def broadcast(v, w, M, n, x): return M * v, M + x, M - v
def rowsum(v, w, M, n, x): return M.sum(axis=0), M.sum(axis=1)
def neg(v, w, M, n, x): return -v, +x, -M
def view(v, w, M, n, x):
    A = M.copy()
    r = A[0]
    r[0] = x
    return A
def alias(v, w, M, n, x):
    A = v.copy()
    b = A
    b[0] = x
    return A
def asarr(v, w, M, n, x):
    a = np.asarray(v)
    return a is v, np.array(v) is v
def npdot3(v, w, M, n, x): return np.dot(v, M @ w)
def einsum(v, w, M, n, x): return np.einsum("i,ij,j->", v, M, w)
def clip(v, w, M, n, x): return np.clip(x, -1.0, 1.0), np.clip(v, 0, 1)
def cumsum(v, w, M, n, x): return np.cumsum(v)
def concat(v, w, M, n, x): return np.concatenate([v, w])
def linspace(v, w, M, n, x): return np.linspace(0, 1, 5)
def arange(v, w, M, n, x): return np.arange(4), np.arange(len(v))
def isnan(v, w, M, n, x): return np.isnan(x), math.isinf(x), np.isfinite(v)
def inf(v, w, M, n, x): return x < float("inf"), x > -np.inf, math.inf > x
def cmp_arr(v, w, M, n, x): return bool((v == w).all())
def matrow(v, w, M, n, x): return [M[i] @ v for i in range(len(v))]
def trimat(v, w, M, n, x):
    A = np.zeros((len(v), len(v)))
    for i in range(len(v)):
        for j in range(i + 1):
            A[i, j] = v[i] - w[j]
            A[j, i] = A[i, j]
    return A


@dataclass
class D:
    a: float
    b: int = 3

    def s(self):
        return self.a + self.b

    @property
    def t(self):
        return self.a * 2

    @classmethod
    def mk(cls, x):
        return cls(x, 1)

    @staticmethod
    def st(x):
        return x - 1


class Base:
    def __init__(self, x):
        self.x = x

    def f(self):
        return self.g() + 1

    def g(self):
        return self.x


class Sub(Base):
    def __init__(self, x, y):
        super().__init__(x)
        self.y = y

    def g(self):
        return self.x * self.y


class St(Enum):
    A = 0
    B = 1
    C = 2


def data(v, w, M, n, x): return D(x).s(), D(x, n).t, D.mk(x).s(), D.st(x), D(a=x, b=2).b
def data_mut(v, w, M, n, x):
    d = D(x)
    e = d
    e.a = 5.0
    d.b += n
    return d.a, e.b
def classes(v, w, M, n, x): return Sub(x, n).f(), Base(x).f()
def enums(v, w, M, n, x):
    s = St.A if n > 1 else St.B
    if s is St.A:
        return 1
    return 2 if s == St.B else 3
def enum_ne(v, w, M, n, x):
    s = St.A if n > 1 else (St.B if x > 0 else St.C)
    return (s != St.A, s in (St.A, St.B), s not in (St.C,))
def matchst(v, w, M, n, x):
    match n:
        case 0:
            return 1
        case 1 | 2:
            return 2
        case _:
            return 3
