import importlib

OBS, RULES, RULE_TEXT, ASSUME, DYN, TECHNIQUE, NOTE = {}, {}, {}, {}, {}, {}, {}
for m in ("calc", "arrs", "drivers", "ells", "oracles", "solvers", "rules", "inv", "builds", "pyport"):
    mod = importlib.import_module("obligs." + m)
    for k, v in mod.OBS.items():
        OBS.setdefault(k, []).extend(v)
    for k, v in getattr(mod, "RULES", {}).items():
        RULES.setdefault(k, []).extend(v)
    DYN.update(getattr(mod, "DYN", {}))
    TECHNIQUE.update(getattr(mod, "TECHNIQUE", {}))
    NOTE.update(getattr(mod, "NOTE", {}))
    RULE_TEXT.update(getattr(mod, "RULE_TEXT", {}))
    ASSUME.update(getattr(mod, "ASSUME", {}))

VALUE_TEXT = ("global value numbering over the compiler's MIR: for each listed entry point the observable results (return value, mutated state, "
              "panic condition, order of calls into user supplied traits) are reduced to gated-SSA normal forms over all inputs, loops "
              "included, and compared with the normal forms of the reference definition in /verif/spec; a difference is reported only "
              "when an interpretation of the two value graphs separates them")
ASSUME_VALUE = ["floating point numbers are read as real numbers (rounding and overflow are outside this rule, except in the obligations named exact symmetry or bit for bit, which read + - * / as opaque IEEE operations; NaN too, except where an obligation is about a NaN matrix)",
                "machine integers are read as unbounded integers; bounds, overflow and division assertions are taken to pass",
                "the models of the core/alloc/std items called are right (engine/models.py)",
                "the reference definitions in /verif/spec state the property"]
from obligs.pyport import PY, programs
NA = {}
