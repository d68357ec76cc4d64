from lib.common import *
from lib import ordi

WARM = True
RULE = ("Ordinal MI (2-6 variables, offsets), CMI (2-4 variables), TE (propagation time) and CTE with embedding dimension 1-6, steps 1-4, histories 1-4, up to 8000 points, on series with ties (stable=True) and "
        "without, or made of two patterns with easily confused codes, against the plug-in combination of naively symbolised and independently windowed pattern series, global and local. Non-trivial: at least three windows and more than one joint pattern.")


def build(r, big=False):
    stable = bool(r.random() < 0.6)
    m = int(gen.pick(r, [1, 2, 2, 3, 3, 4, 5, 6]))
    if r.random() < 0.1:
        m = int(gen.pick(r, [7, 8, 9, 12, 13, 19, 20]))
    meas = gen.pick(r, ["mi", "mi", "cmi", "te", "te", "cte", "cte"])
    nv = {"mi": int(gen.pick(r, [2, 2, 3, 4, 2, 2, 3, 4, 5, 6])), "cmi": int(gen.pick(r, [3, 3, 4, 3, 3, 4, 5])), "te": 2, "cte": 3}[meas]
    step = int(gen.pick(r, [1, 1, 2, 3, 4]))
    d = ordi.build_series(r, nv, *([gen.big_n(r, 8000)] * 2 if big else ((m + 4) * step + 6, (m + 4) * step + 150)), stable)
    ordi.add_twins(r, d, m, step)
    c = {"m": m, "step": step, "stable": stable, "meas": meas, "base": gen.base_rng(r), "d": d, "how": gen.pick(r, ["f", "e"])}
    if meas in ("te", "cte"):
        c["h"] = [int(r.integers(1, 5)) for _ in range(nv)]
        c["prop"] = int(gen.pick(r, [0, 0, 1, 2, -1])) if meas == "te" else 0
        gen.long_hists(r, c)
    elif meas == "mi" and nv == 2 and r.random() < 0.4:
        c["offset"] = int(r.integers(-4, 5))
    return c


@st.composite
def small(draw):
    m = draw(st.sampled_from([2, 2, 3, 4]))
    meas = draw(st.sampled_from(["mi", "cmi", "te", "cte"]))
    nv = {"mi": 2, "cmi": 3, "te": 2, "cte": 3}[meas]
    step = draw(st.sampled_from([1, 1, 2]))
    n = (m + 1) * step + draw(st.integers(1, 10))
    stable = draw(st.booleans())
    col = st.lists(st.integers(0, 3), min_size=n, max_size=n) if stable else st.permutations(list(range(n)))
    c = {"m": m, "step": step, "stable": stable, "meas": meas, "base": draw(BASES), "d": {"xs": [draw(col) for _ in range(nv)]}, "how": "e"}
    if meas in ("te", "cte"):
        c["h"] = [draw(st.integers(1, 2)) for _ in range(nv)]
        c["prop"] = 0
    return c


def check(c):
    bx, xs = ordi.decode(c["d"])
    m, step, b, meas = c["m"], c["step"], c["base"], c["meas"]
    kw = dict(approach="ordinal", embedding_dim=m, step_size=step, stable=c["stable"], base=b)
    if meas in ("mi", "cmi"):
        o = c.get("offset", 0)
        if o:
            kw["offset"] = o
            bx = [bx[0][:-o], bx[1][o:]] if o > 0 else [bx[0][-o:], bx[1][:o]]
        pl = [ordi.pats(x, m, step) for x in bx]
        nw = len(pl[0])
        if meas == "mi":
            pos = xs
            plus, minus = pl, [list(zip(*pl))]
        else:
            pos, kw["cond"] = xs[:-1], xs[-1]
            z = pl[-1]
            plus = [list(zip(p, z)) for p in pl[:-1]]
            minus = [list(zip(*pl)), z]
    else:
        hs, pt = c["h"], c["prop"]
        sft = abs(pt) * step
        if pt > 0:
            bx = [bx[0][:-sft], bx[1][sft:]]
        elif pt < 0:
            bx = [bx[0][sft:], bx[1][:-sft]]
        if len(bx[0]) <= (m - 1) * step:
            return None
        pl = [ordi.pats(x, m, step) for x in bx]
        nw = len(O.te_bases(len(pl[0]), step, *hs)) if len(pl[0]) else 0
        kw.update(src_hist_len=hs[0], dest_hist_len=hs[1])
        if meas == "cte":
            kw.update(cond=xs[2], cond_hist_len=hs[2])
        elif pt:
            kw["prop_time"] = pt
        if nw < 1:
            raises(ValueError, lambda: getattr(im, meas)(*xs[:2], **kw), "pattern series too short for the histories")
            return None
        X, Z, Y = O.te_windows(pl[0], pl[1], hs[0], hs[1], step, 0, *((pl[2], hs[2]) if meas == "cte" else ()))
        ZY = list(zip(Z, Y))
        plus = [ZY, list(zip(X, Z))]
        minus = [list(zip(X, ZY)), Z]
        pos = xs[:2]
    want = O.combine("discrete", plus, minus, b)
    e = im.estimator(*pos, measure=meas, **kw)
    check_close(e.global_val(), want, f"ordinal {meas}", 1e-9, 1e-9)
    if c["how"] == "f":
        check_close(getattr(im, meas)(*pos, **kw), want, f"ordinal {meas} (functional)", 1e-9, 1e-9)
    check_array(e.local_vals(), O.local_combine("discrete", plus, minus, b), f"local ordinal {meas}", 1e-9, 1e-9)
    if nw < 3 or len(set(minus[0])) < 2:
        return None
    return [meas, f"m{m}", f"step {step}", "ties" if not ordi.tie_free(bx) else "tie-free"] + (["offset"] if c.get("offset") or c.get("prop") else [])


SUBS = [Sub("patterns", gen.uniform(build), check, 3000, 100000), Sub("small", small(), check, 1200, 40000),
        Sub("large", gen.uniform(lambda r: build(r, True)), check, 50, 2500)]
