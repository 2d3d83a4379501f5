"""Which entry points, compiled how, make up the world of each property."""
import build
import catalog as c

ALG = ("fe", "tr", "red", "cnt")


def interleave(*lists):
    out, names = [], set()
    for i in range(max(map(len, lists))):
        for l in lists:
            if i < len(l) and l[i].name not in names:
                names.add(l[i].name)
                out.append(l[i])
    return out


def one(kind, mode, n, tag, ok=lambda o: True, core=True):
    return c.covering(kind, "%s/%s/%s" % (tag, mode, kind), n, core, ok, mode)


def mix(mode, n, tag, kinds=ALG, ls=0, mls=0, val=0, ok=lambda o: True, core=True):
    """n algorithm ops spread over kinds, plus loads/stores, masked accesses, value operations"""
    per = -(-n // len(kinds))
    ls_ = [one(k, mode, per, tag, ok, core) for k in kinds]
    if ls:
        ls_.append(c.ls_ops("%s/%s" % (tag, mode), ls, mode))
    if mls and "fb" in mode:
        ls_.append(c.mls_ops("%s/%s" % (tag, mode), mls))
    if val:
        ls_.append(c.val_ops("%s/%s" % (tag, mode), val * (2 if "fb" in mode else 1), mode))
    return interleave(*ls_)


def has_cb(o):
    # reduce()/reduce(init) and the inner product have no user callable
    return not (o.kind == "red" and o.dims["f"][0] in (0, 1, 3, 10))


def writes(o):
    return not (o.kind == "fe" and o.dims["c"] in ("VAL", "CREF", "CFOBJ", "VVAL", "RREF", "RVREF"))


def policyish(o):
    return has_cb(o) and bool(o.dims["s"] or o.dims["u"] or o.dims["a"]) and not (o.kind == "red" and o.dims["f"][0] < 10)


QUICK = ("o2", "os", "sse", "fb")
DEEP = ("o2", "os", "sse", "fb", "o3", "o1", "fbos", "fbsse", "v4", "cl", "clfb")


def sizes(tier, o2, os, sse, fb):
    if tier == "quick":
        return {"o2": o2, "os": os, "sse": sse, "fb": fb}
    return {m: 6 * max(o2, 24) if m in ("o2", "fb") else 4 * max(o2, 24) for m in DEEP}


def world(prop, tier):
    w = {m: [x for x in o if m != "v4" or fits_v4(x)] for m, o in _world(prop, tier).items() if build.runnable(m)}
    if int(prop[1:]) in c.HUGE:
        w["hg"] = c.huge_ops(int(prop[1:]))
    return w


BYTES = {"i8", "u8", "chr", "P4b", "P2b", "P3b", "P6b", "M9", "ABCm", "Pad", "Mix", "Mix3"}


def fits_v4(o):
    """64 byte registers: <experimental/simd> has no 64-lane types other than those of bytes"""
    return not BYTES & set(o.name.replace("-", ".").split("."))


def _world(prop, tier):
    tag = prop + ("" if tier == "quick" else "/deep")
    if prop in ("C01", "C02", "C03", "C04"):
        kind = ALG[int(prop[1:]) - 1]
        return {m: one(kind, m, n, tag, core=True) for m, n in (sizes(tier, 72, 44, 36, 56) if kind == "cnt" else sizes(tier, 96, 60, 48, 76)).items()}
    if prop == "C05":
        return {m: mix(m, n, tag, ls=2 * n // 3, mls=n // 2) for m, n in sizes(tier, 104, 60, 60, 88).items()}
    if prop == "C06":
        return {m: mix(m, n, tag, ok=has_cb) for m, n in sizes(tier, 112, 60, 48, 88).items()}
    if prop == "C07":
        return {m: mix(m, n, tag, kinds=("fe", "tr"), ls=n // 2, mls=n // 3, ok=writes) + one("red", m, max(4, n // 6), tag) for m, n in sizes(tier, 84, 44, 44, 68).items()}
    if prop == "C08":
        return {m: mix(m, n, tag, ls=n // 3, mls=n // 3, val=3 * n // 2) for m, n in sizes(tier, 72, 40, 40, 72).items()}
    if prop == "C09":
        if tier == "quick":
            return {m: c.mls_ops("%s/%s" % (tag, m), n, m == "fb") for m, n in dict(fb=900, fbos=120, fbsse=140).items()}
        return {m: c.mls_ops("%s/%s" % (tag, m), n, True) for m, n in dict(fb=1100, fbos=700, fbsse=900, clfb=700).items()}
    if prop == "C10":
        if tier == "quick":
            return {m: c.ls_ops("%s/%s" % (tag, m), n, m, matrix=True) for m, n in dict(o2=260, os=80, sse=140, fb=600).items()}
        return {m: c.ls_ops("%s/%s" % (tag, m), n, m, matrix=True) for m, n in dict(o2=600, os=300, sse=500, fb=900, o3=300, o1=200, fbsse=700, v4=400, cl=400, clfb=700).items()}
    if prop == "C11":
        return {m: mix(m, n, tag, ls=n // 8, mls=n // 8, val=n) for m, n in sizes(tier, 92, 52, 48, 76).items()}
    if prop == "C12":
        ms = lambda o: o.dims["a"] == "ms"
        f = 1 if tier == "quick" else 6
        r = {}
        for m, (a, b, l) in dict(o2=(28, 0, 10), fb=(18, 20, 10), pc5=(18, 0, 5), fb5=(12, 16, 5), pc4=(12, 0, 3), fb4=(9, 12, 3)).items():
            x = c.bad_alg_ops("%s/%s" % (tag, m), a * f)
            if b:
                x += c.bad_fb_ops("%s/%s" % (tag, m), b * f)
            r[m] = x + mix(m, l * f, tag, ok=ms, core=False) + (c.val_ops("%s/%s" % (tag, m), 14 * f, m, ("v_subs", "v_sidx", "v_ffs", "v_fls", "v_msub")) if "fb" in m else [])
        if tier != "quick":
            for m in ("pc2", "cl"):
                r[m] = c.bad_alg_ops("%s/%s" % (tag, m), 60) + mix(m, 24, tag, ok=ms, core=False)
        return r
    if prop == "C13":
        return {m: mix(m, n, tag, ok=policyish) for m, n in sizes(tier, 84, 44, 36, 64).items()}
    raise SystemExit("unknown property " + prop)


def tus(tier):
    return 16 if tier == "quick" else 64


def budget(prop, tier):
    if tier == "quick":
        runs = {"C08": 480000, "C02": 400000, "C09": 1600000, "C10": 800000, "C12": 1600000}.get(prop, 560000)
        return dict(runs=runs, wall=25)
    return dict(runs=10**12, wall=float(__import__("os").environ.get("VERIF_WALL", "600")))
