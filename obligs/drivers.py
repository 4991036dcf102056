"""C01-C04: the search drivers, generic in oracle and space."""
from .common import *

CP = "cutting_plane::"
TP = [param("T", 0), param("Oracle", 1), param("Space", 2)]


def opts(c):
    o = c.call(CP + "Options::new", c.nat("max_iters"), c.real("tolerance"))
    return c.ref(o)


def objs(c):
    om = c.ref(leaf(N.sym("omega", "o", unique=False)))
    sp = c.ref(leaf(N.sym("space", "o", unique=False)))
    return om, sp


def fin(c, om, sp, r):
    c.observe("result", r)
    c.observe("oracle state", c.get(om))
    c.observe("space state", c.get(sp))


def feas(c):
    om, sp = objs(c)
    r = c.call(CP + "cutting_plane_feas", om, sp, opts(c), targs=TP)
    fin(c, om, sp, r)


def optim(name):
    def script(c):
        om, sp = objs(c)
        g = c.ref(c.real("gamma"))
        r = c.call(CP + name, om, sp, g, opts(c), targs=TP)
        fin(c, om, sp, r)
        c.observe("gamma", c.get(g))
    return script


def bsearch(c):
    om, _ = objs(c)
    lo, up = c.real("lower"), c.real("upper")
    iv = c.ref(tup(lo, up))
    r = c.call(CP + "bsearch", om, iv, opts(c), targs=[param("Oracle", 0)])
    c.observe("result", r)
    c.observe("oracle state", c.get(om))
    c.observe("interval", c.get(iv))


def adaptor(c):
    om, sp = leaf(N.sym("omega", "o", unique=False)), leaf(N.sym("space", "o", unique=False))
    o = c.call(CP + "Options::new", c.nat("max_iters"), c.real("tolerance"))
    ad = c.ref(c.call(CP + "BSearchAdaptor::<T, Oracle, Space>::new", om, sp, o, targs=TP))
    r = c.tcall(CP + "OracleBS", [adt(CP + "BSearchAdaptor", *TP)], "assess_bs", ad, c.real("gamma"))
    c.observe("feasible", r)
    c.observe("adaptor", c.get(ad))


OBS = {
    "C01": [("cutting_plane_feas", feas)],
    "C02": [("cutting_plane_optim", optim("cutting_plane_optim"))],
    "C03": [("cutting_plane_optim_q", optim("cutting_plane_optim_q"))],
    "C04": [("bsearch", bsearch), ("BSearchAdaptor::assess_bs", adaptor)],
}
