from lib.common import *
from checks.I01 import ENC, large, min_kth, nonconst

WARM = True
RULE = ("2-6 variables plus a condition (one column, several columns, tuple where accepted, constants, string/float/bool codings, up to 140000 samples), "
        "10 closed-form discrete approaches against independently evaluated entropies, NSB/ordinal/Renyi/Tsallis/kernel against the library's own entropies. "
        "Non-trivial: two variables and the condition are not constant.")
ACCEPT_TUPLE = {"discrete"}


def refusable(fn, approach, cond):
    """Miller-Madow documents one-dimensional conditions only and refuses others."""
    if approach != "miller_madow" or np.ndim(cond) == 1:
        return fn()
    try:
        return fn()
    except ValueError as e:
        require("one-dimensional" in str(e), f"refused for another reason: {e}")
        return None


@st.composite
def case(draw):
    a, p = draw(app_params())
    nv = draw(st.sampled_from([2, 2, 2, 3, 3, 4, 5]))
    form = draw(st.sampled_from(["1d", "1d", "1d", "2d", "tuple" if a in ACCEPT_TUPLE else "2d", "const"]))
    nc = 1 if form in ("1d", "const") else draw(st.integers(1, 3))
    return {"approach": a, "params": p, "base": draw(BASES), "data": draw(gen.disc(nv + nc, min_n=1, rng_max=200)), "nv": nv, "form": form,
            "encs": draw(st.lists(st.sampled_from(ENC), min_size=nv + nc, max_size=nv + nc)), "how": draw(st.sampled_from(["f", "f", "e", "mi"]))}


def check(c):
    cs = gen.cols(c["data"])
    nv = c["nv"]
    xs = [gen.encode(v, e) for v, e in zip(cs, c["encs"])]
    a, p, b = c["approach"], c["params"], c["base"]
    vs, zs = cs[:nv], cs[nv:]
    if c["form"] == "1d":
        cond = xs[nv]
    elif c["form"] == "const":
        zs = [np.zeros_like(cs[0])]
        cond = gen.encode(zs[0] + 1, "int")
    elif c["form"] == "2d":
        cond = np.column_stack(zs)
    else:
        cond = tuple(zs)
    plus = [O.rows(v, *zs) for v in vs]
    minus = [O.rows(*vs, *zs), O.rows(*zs)]
    want = O.combine(a, plus, minus, b, **p)
    k = dict(approach=a, base=b, **p)
    if refusable(lambda: im.cmi(*xs[:nv], cond=cond, **k), a, cond) is None:
        return "refused"
    if c["how"] == "f":
        got = im.cmi(*xs[:nv], cond=cond, **k)
    elif c["how"] == "mi":
        got = im.mutual_information(*xs[:nv], cond=cond, **k)
    else:
        got = im.estimator(*xs[:nv], cond=cond, measure="conditional_mutual_information", **k).global_val()
    if a == "ansb" and np.isnan(want):
        return "ansb undefined"
    check_close(got, want, f"CMI of {nv} variables ({a}, condition {c['form']})", 1e-8, 1e-9)
    if c["form"] == "const" and nv == 2 and a not in ("bayes", "bonachela", "ansb") or (c["form"] == "const" and nv == 2 and a == "bayes" and "K" not in p):
        # entropy of a constant is 0 for these; Grassberger's small-sample correction is not
        h0 = O.entropy(a, [0] * len(cs[0]), b, **p)
        if abs(h0) < 1e-12:
            check_close(got, im.mi(*xs[:nv], **k), f"CMI given a constant = MI ({a})", 1e-8, 1e-9)
    if a in LOCAL_DISC:
        check_array(im.estimator(*xs[:nv], cond=cond, measure="cmi", **k).local_vals(), O.local_combine(a, plus, minus, b), f"local CMI ({a})")
    return nonconst(vs) and (c["form"] == "const" or len(set(O.rows(*zs))) > 1) and [a, f"{nv} vars", c["form"]]


@st.composite
def mixeddim(draw):
    a, p = draw(app_params())
    dims = draw(st.lists(st.integers(1, 2), min_size=3, max_size=4))
    return {"approach": a, "params": p, "base": draw(BASES), "dims": dims, "data": draw(gen.disc(sum(dims), min_n=2, rng_max=120))}


def check_mixeddim(c):
    cs = gen.cols(c["data"])
    xs, vs, i = [], [], 0
    for d in c["dims"]:
        part = cs[i:i + d]
        i += d
        xs.append(part[0] if d == 1 else np.column_stack(part))
        vs.append(O.rows(*part))
    a, p, b = c["approach"], c["params"], c["base"]
    z = vs[-1]
    plus = [list(zip(v, z)) for v in vs[:-1]]
    minus = [list(zip(*vs)), z]
    want = O.combine(a, plus, minus, b, **p)
    if a == "ansb" and np.isnan(want):
        return None
    got = refusable(lambda: im.cmi(*xs[:-1], cond=xs[-1], approach=a, base=b, **p), a, xs[-1])
    if got is None:
        return "refused"
    check_close(got, want, f"CMI of variables with {c['dims']} columns ({a})")
    return [a, str(c["dims"])] if len(set(c["dims"])) > 1 and nonconst(cs) else None


@st.composite
def big(draw):
    a, p = draw(app_params(tuple(x for x in DISC if x not in ("zhang", "chao_wang_jost"))))
    nv = draw(st.sampled_from([2, 2, 3, 4, 5]))
    k = draw(st.sampled_from([2, 10, 100, 900] if nv < 5 else [2, 10, 100]))
    vs = [[draw(st.sampled_from([1, 2, k, k])), draw(st.integers(-1, i - 1)) if i else -1, 0.3, 0] for i in range(nv + 1)]
    return {"approach": a, "params": p, "base": draw(BASES), "data": {"rng": draw(SEED), "n": draw(st.integers(200, 3000)), "vars": vs}, "nv": nv,
            "form": "1d", "encs": ["int"] * (nv + 1), "how": "f"}


@st.composite
def own(draw):
    a = draw(st.sampled_from(["nsb", "ordinal", "renyi", "tsallis", "kernel", "renyi", "tsallis"]))
    c = {"approach": a, "base": draw(BASES)}
    if a == "nsb":
        c["data"] = draw(gen.disc(draw(st.integers(3, 4)), min_n=3, rng_max=60, max_k=4))
        c["params"] = {"K": draw(st.integers(1, 20))} if draw(st.integers(0, 3)) == 0 else {}
    elif a == "ordinal":
        c["params"] = {"embedding_dim": draw(st.integers(1, 4)), "step_size": draw(st.integers(1, 3)), "stable": True}
        c["data"] = draw(gen.real([1] * draw(st.integers(3, 4)), min_n=14, max_n=40))
    else:
        dims = draw(st.lists(st.sampled_from([1, 1, 2]), min_size=3, max_size=3 if a == "kernel" else 4))
        c["params"] = draw(cont_params(a))
        c["data"] = draw(gen.real(dims, min_n=12, max_n=25, rng_max=60, ties=False))
    return c


def check_own(c):
    a, p, b = c["approach"], c["params"], c["base"]
    k = dict(approach=a, base=b, **p)
    xs = gen.cols(c["data"]) if a == "nsb" else gen.points(c["data"])
    vs, z = xs[:-1], xs[-1]
    if a in ("nsb", "ordinal"):
        H = lambda *v: im.entropy(tuple(v) if len(v) > 1 else v[0], **k)
    else:
        H = lambda *v: im.entropy(np.column_stack(v) if len(v) > 1 else v[0], **k)
    sets = [(v, z) for v in vs] + [tuple(xs), (z,)]
    if a in ("renyi", "tsallis") and any(min_kth(np.column_stack(s), p["k"]) == 0 for s in sets):
        return None
    if a == "kernel" and p["kernel"] == "gaussian" and any(np.linalg.matrix_rank(np.cov(np.column_stack(s).T)) < np.column_stack(s).shape[1] for s in sets):
        return None
    want = sum(H(*s) for s in sets[:-2]) - H(*sets[-2]) - H(*sets[-1])
    extra = {"noise_level": 0} if a in ("renyi", "tsallis") else {}
    got = im.cmi(*vs, cond=z, **k, **extra)
    if a == "nsb" and np.isnan(want):
        return None
    rt, at = (1e-5, 1e-6) if a == "nsb" else (1e-8, 1e-9)
    check_close(got, want, f"CMI of {len(vs)} variables ({a})", rt, at)
    return [a, f"{len(vs)} vars"]


SUBS = [Sub("discrete", case(), check, 3000, 80000), Sub("big", big(), check, 200, 5000), Sub("large", large(True), check, 60, 3000), Sub("mixed dims", mixeddim(), check_mixeddim, 600, 20000),
        Sub("own", own(), check_own, 700, 20000)]
