from lib.common import *

RULE = ("Sequences of up to 25 configuration operations (valid and invalid keys, values, units, log levels, resets) against a dictionary model; every observable is read back "
        "after every step. Non-trivial: at least one accepted change and one rejected change.")
DEF = {"base": "e", "statistical_test_method": "permutation_test", "statistical_test_n_tests": 200}
UNITS = {2: (["bits", "bit", "shannons", "shannon"], "bit/shannon"), "e": (["nats", "nat", "nit", "nepit"], "nat/nit/nepit"),
         10: (["hartleys", "hartley", "bans", "ban", "dits", "dit"], "hartley/ban/dit")}
CASES = [str.lower, str.upper, str.title, str.swapcase]
base_v = st.one_of(st.sampled_from([2, "e", 10, 3, 2.5, 1.5, 2.0, 10.0, 2.718281828459045, 7]), st.integers(2, 1000), st.floats(1.01, 1e6))
bad_base = st.sampled_from(["E", "2", "bits", None, [2], "", "10", {"a": 1}, "ee"])
op = st.one_of(
    st.tuples(st.just("set"), st.just("base"), base_v),
    st.tuples(st.just("set"), st.just("base"), bad_base),
    st.tuples(st.just("set"), st.just("statistical_test_method"), st.sampled_from(["permutation_test", "bootstrap"])),
    st.tuples(st.just("set"), st.just("statistical_test_method"), st.sampled_from(["permutation", "Bootstrap", "", None, 3, 200, "perm test", ["bootstrap"]])),
    st.tuples(st.just("set"), st.just("statistical_test_n_tests"), st.integers(1, 10**6)),
    st.tuples(st.just("set"), st.just("statistical_test_n_tests"), st.sampled_from([2.5, "100", None, "e", [5], 100.0])),
    st.tuples(st.just("set"), st.sampled_from(["bas", "Base", "", "n_tests", "method", "unit", "value", "p_value_method", "log_level"]), st.sampled_from([2, "e", "bootstrap", 100])),
    st.tuples(st.just("unit"), st.sampled_from([u for v in UNITS.values() for u in v[0]]), st.integers(0, 3)),
    st.tuples(st.just("unit"), st.sampled_from(["", "byte", "b", "natss", "bit ", "base2", "e", "2", "trit", "hart"]), st.just(0)),
    st.tuples(st.just("reset"), st.just(""), st.just(0)),
    st.tuples(st.just("level"), st.sampled_from(["CRITICAL", "critical", "50", "Error"]), st.just(0)),
    st.tuples(st.just("badlevel"), st.sampled_from(["LOUD", "", "warn ing"]), st.just(0)),
    st.tuples(st.just("get"), st.sampled_from(["bas", "", "unit"]), st.just(0)),
)


def observe(model):
    C = im.Config
    for k, v in model.items():
        got = C.get(k)
        require(type(got) is type(v) and got == v, f"Config.get({k!r}) is {got!r}, expected {v!r}")
    b = model["base"]
    for base, (ids, name) in UNITS.items():
        if base == b:
            require(C.get_logarithmic_unit() == name, f"unit name {C.get_logarithmic_unit()!r} for base {b!r}")
            d = C.get_logarithmic_unit_description()
            key = {2: "binary", "e": "continuous", 10: "decimal"}[base]
            require(key in d, f"unit description {d!r} for base {b!r}")
            break
    else:
        n = C.get_logarithmic_unit()
        require("unknown" in n and str(b) in n, f"unit name {n!r} for base {b!r}")
        raises(ValueError, C.get_logarithmic_unit_description, f"description of base {b!r}")


def check(c):
    import logging

    C = im.Config
    C.reset()
    model = dict(DEF)
    acc = rej = 0
    x = [0, 0, 1, 1, 1, 2]
    try:
        observe(model)
        for o, k, v in c:
            if o == "set":
                ok = k == "base" and (v == "e" or isinstance(v, (int, float)) and not isinstance(v, bool)) or \
                    k == "statistical_test_method" and v in ("permutation_test", "bootstrap") or \
                    k == "statistical_test_n_tests" and isinstance(v, int)
                if ok:
                    C.set(k, v)
                    model[k] = v
                    acc += 1
                else:
                    raises(KeyError if k not in DEF else TypeError, lambda: C.set(k, v), f"Config.set({k!r}, {v!r})")
                    rej += 1
            elif o == "unit":
                for base, (ids, _) in UNITS.items():
                    if k in ids:
                        C.set_logarithmic_unit(CASES[v](k))
                        model["base"] = base
                        acc += 1
                        break
                else:
                    raises(ValueError, lambda: C.set_logarithmic_unit(k), f"set_logarithmic_unit({k!r})")
                    rej += 1
            elif o == "reset":
                C.reset()
                model = dict(DEF)
            elif o == "level":
                C.set_log_level(int(k) if k.isdigit() else k)
                want = 50 if k.isdigit() else getattr(logging, k.upper())
                require(logging.getLogger("infomeasure").level == want, f"log level after set_log_level({k!r})")
                logging.getLogger("infomeasure").setLevel(logging.CRITICAL + 10)
            elif o == "badlevel":
                raises((AttributeError, ValueError, TypeError), lambda: C.set_log_level(k), f"set_log_level({k!r})")
                rej += 1
            elif o == "get":
                raises(KeyError, lambda: C.get(k), f"Config.get({k!r})")
            observe(model)
            if isinstance(model["base"], str) or model["base"] > 1:
                check_close(im.entropy(x, approach="discrete"), O.entropy("discrete", x, model["base"]), "entropy in the configured unit", 1e-9, 1e-12)
        C.reset()
        observe(DEF)
        # what one reads is not a handle on the defaults
        C.set("base", 5)
        C.reset()
        observe(DEF)
    finally:
        C.reset()
    return (acc > 0 and rej > 0) and ["mixed"]


SUBS = [Sub("history", st.lists(op, min_size=1, max_size=25), check, 1500, 40000)]
