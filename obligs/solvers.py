"""C25, C26: conjugate gradient and power iterations."""
from .common import *


def cg(sym):
    return lambda c: cgr(c, sym)


def cgr(c, sym):
    n = c.nat("n", 1)
    a, b = c.ref(arr2sym(c, "A", n) if sym else arr2(c, "A", n, n)), c.ref(arr1(c, "b", n))
    x0 = option(c.bool("has_x0"), c.ref(arr1(c, "x0", n)))
    c.observe("result", c.call("conjugate_gradient::conjugate_gradient", a, b, x0, c.real("tol"), c.nat("max_iter")))


OPT = "power_iteration::Options"


def power(name):
    def script(c):
        n = c.nat("n", 1)
        a, x = c.ref(arr2(c, "A", n, n)), c.ref(arr1(c, "x", n))
        o = c.ref(mkstruct(c, OPT, {"max_iters": c.nat("max_iters"), "tolerance": c.real("tol")}))
        r = c.call("power_iteration::" + name, a, x, o)
        c.observe("result", r)
        see(c, "x", c.get(x))
    return script


OBS = {"C25": [("conjugate_gradient", cg(False)), ("conjugate_gradient symmetric", cg(True))], "C26": [(n, power(n)) for n in ("power_iteration", "power_iteration2", "power_iteration3", "power_iteration4")]}
