"""C07-C09: cut parameters, classification and dispatch (ell_calc)."""
from .common import *

CALC = "ell_calc::EllCalc"
CORE = "ell_calc::EllCalcCore"


def core(meth, args):
    """EllCalcCore::new(n).meth(args...)"""
    def script(c):
        n = c.nat("n", 2)
        t, t2 = tau_tsq(c)
        obj = c.call(CORE + "::new", n)
        vals = [t if a == "tau" else t2 if a == "tsq" else c.real(a) for a in args]
        c.observe("result", c.call(CORE + "::" + meth, c.ref(obj), *vals))
    return script


def calc(c):
    obj = c.call(CALC + "::new", c.nat("n", 2))
    return with_field(c, obj, "use_parallel_cut", c.bool("use_parallel"))


def direct(meth, args):
    """EllCalc::new(n).meth(args...), parallel handling on or off"""
    def script(c):
        t, t2 = tau_tsq(c)
        obj = calc(c)
        c.observe("result", c.call(CALC + "::" + meth, c.ref(obj), *[t2 if a == "tsq" else c.real(a) for a in args]))
    return script


def dispatch(meth):
    def script(c):
        t, t2 = tau_tsq(c)
        obj = calc(c)
        cut = parallel(c.real("b0"), option(c.bool("has_b1"), c.real("b1")))
        c.observe("result", c.call(CALC + "::" + meth, c.ref(obj), c.ref(cut), t2))
    return script


OBS = {
    "C07": [
        ("core bias cut", core("calc_bias_cut", ["beta", "tau"])),
        ("core bias cut with given eta", core("calc_bias_cut_fast", ["beta", "tau", "eta"])),
        ("core central cut", core("calc_central_cut", ["tsq"])),
        ("bias cut", direct("calc_bias_cut", ["beta", "tsq"])),
        ("discrete bias cut", direct("calc_bias_cut_q", ["beta", "tsq"])),
        ("central cut", direct("calc_central_cut", ["tsq"])),
    ],
    "C08": [
        ("core parallel bias cut", core("calc_parallel_bias_cut", ["b0", "b1", "tsq"])),
        ("core parallel bias cut with given products", core("calc_parallel_bias_cut_fast", ["b0", "b1", "tsq", "b0b1", "eta"])),
        ("core legacy parallel bias cut", core("calc_parallel_bias_cut_fast_old", ["b0", "b1", "tsq", "b0b1", "eta"])),
        ("core parallel central cut", core("calc_parallel_central_cut", ["b1", "tsq"])),
        ("parallel bias cut", direct("calc_parallel_bias_cut", ["b0", "b1", "tsq"])),
        ("parallel discrete cut", direct("calc_parallel_q", ["b0", "b1", "tsq"])),
        ("parallel central cut", direct("calc_parallel_central_cut", ["b1", "tsq"])),
    ],
    "C09": [(m, direct(m, a)) for m, a in [
        ("calc_bias_cut", ["beta", "tsq"]), ("calc_bias_cut_q", ["beta", "tsq"]), ("calc_central_cut", ["tsq"]),
        ("calc_parallel_bias_cut", ["b0", "b1", "tsq"]), ("calc_parallel_q", ["b0", "b1", "tsq"]),
        ("calc_parallel_central_cut", ["b1", "tsq"])]]
    + [(m, dispatch(m)) for m in ("calc_single_or_parallel_bias_cut", "calc_single_or_parallel_central_cut",
                                  "calc_single_or_parallel_q")],
}
