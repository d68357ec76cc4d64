from lib.common import *
from lib import calls

WARM = True
RULE = ("Histories of 2-9 steps mixing configuration changes (base, unit in any spelling, reset, test defaults), estimator construction, evaluation of previously constructed "
        "estimators, and calls of random measures x approaches without / with an explicit base through the functional, estimator and class entry points. Oracle: the same call "
        "with the then-configured base given explicitly. Non-trivial: a call without base while the configured base is not the default.")
UNITS = {"bits": 2, "BIT": 2, "Shannons": 2, "shannon": 2, "nats": "e", "nit": "e", "hartleys": 10, "Bans": 10, "dit": 10, "ban": 10}


def build(r):
    ops = []
    for _ in range(int(r.integers(2, 10))):
        u = r.random()
        if u < 0.2:
            ops.append(["base", gen.pick(r, [2, 10, "e", 3, 2.5, 1.3, 7])])
        elif u < 0.35:
            ops.append(["unit", gen.pick(r, list(UNITS))])
        elif u < 0.42:
            ops.append(["reset"])
        elif u < 0.75:
            ops.append(["call", calls.build(r, n_hi=40), gen.pick(r, ["fn", "est", "class"])])
        elif u < 0.85:
            ops.append(["explicit", calls.build(r, n_hi=40), gen.pick(r, ["fn", "est", "class"])])
        elif u < 0.95:
            ops.append(["make", calls.build(r, n_hi=40)])
        else:
            ops.append(["late"])
    if not any(o[0] in ("call",) for o in ops):
        ops.append(["call", calls.build(r, n_hi=40), "fn"])
    ops.append(["late"])
    return ops


def via(c, how, base):
    """base None: left out."""
    if how == "fn" or c["m"] in ("kld", "jsd"):
        return calls.value(c, base=base)
    if how == "est" or c["m"] == "hx":
        return calls.est(c, base=base).result()
    pos, kw = calls.args_of(c, calls.data(c))
    k = calls.kwargs_of(c, base)
    k.pop("approach")
    meas = {"h": "entropy", "hj": "entropy"}.get(c["m"], calls.FULL[c["m"]])
    return im.get_estimator_class(measure=meas, approach=c["a"])(*pos, **kw, **k).result()


def check(ops):
    C = im.Config
    C.reset()
    cur = "e"
    made = []
    nt = []
    try:
        for o in ops:
            if o[0] == "base":
                C.set("base", o[1])
                cur = o[1]
            elif o[0] == "unit":
                C.set_logarithmic_unit(o[1])
                cur = UNITS[o[1]]
            elif o[0] == "reset":
                C.reset()
                cur = "e"
            elif o[0] == "call":
                c = o[1]
                got = via(c, o[2], None)
                want = via(c, o[2], cur)
                same(got, want, f"{c['m']}/{c['a']} via {o[2]} without a base while the configured base is {cur}")
                # and that is also what it is under the default configuration
                C.reset()
                same(got, via(c, o[2], cur), f"{c['m']}/{c['a']} via {o[2]}: configured base {cur} against explicit base under the default configuration")
                C.set("base", cur)
                if cur != "e":
                    nt += [c["m"], c["a"], o[2]]
            elif o[0] == "explicit":
                c = o[1]
                got = via(c, o[2], c["base"])
                C.reset()
                want = via(c, o[2], c["base"])
                C.set("base", cur)
                same(got, want, f"{c['m']}/{c['a']} via {o[2]} with explicit base {c['base']} while the configured base is {cur}")
            elif o[0] == "make":
                c = o[1]
                if c["m"] not in ("kld", "jsd"):
                    made.append((c, calls.est(c, base=None), cur))
            else:
                for c, e, b in made:
                    got = e.result()
                    want = calls.value(c, base=b)
                    same(got, want, f"estimator {c['m']}/{c['a']} created under base {b}, evaluated under {cur}")
                    if calls.has_local(c):
                        check_array(e.local_vals(), calls.est(c, base=b).local_vals(), f"local values of {c['m']}/{c['a']} created under base {b}", 1e-12, 1e-12)
                made = []
            require(C.get("base") == cur, "a calculation changed the configured base")
    finally:
        C.reset()
    return nt


def same(a, b, what):
    check_close(a, b, what, 1e-12, 1e-12)


SUBS = [Sub("history", gen.uniform(build), check, 900, 30000)]
