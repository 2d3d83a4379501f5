"""Catalogue of the public entry points instantiated in the simulated world.

Every op is one fully typed call of the real library: (element types) x (policy modifiers) x
(callable form) x (iterator / range form).  The selection is a greedy pairwise covering array with a
fixed seed: deterministic, independent of VERIF_SEED.
"""
import random

SCAL = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"]
SCALX = ["chr", "wch", "c16", "c32", "ll", "ull"]
SIGNED = {"i8", "i16", "i32", "i64", "f32", "f64", "chr", "wch", "ll"}
SIZE = dict(i8=1, u8=1, chr=1, i16=2, u16=2, c16=2, i32=4, u32=4, wch=4, c32=4, f32=4, i64=8, u64=8, ll=8, ull=8, f64=8)
STRUCTS = {  # name -> (C++ type, number of members)
    "P2f": ("P2<f32>", 2), "P2s": ("P2<i16>", 2), "P2d": ("P2<f64>", 2), "P3f": ("P3<f32>", 3), "P3i": ("P3<i32>", 3),
    "P3d": ("P3<f64>", 3), "P4f": ("P4<f32>", 4), "P4b": ("P4<i8>", 4), "ABfi": ("AB<f32, i32>", 2), "ABdf": ("AB<f64, f32>", 2),
    "Mix": ("Mix", 2), "Pad": ("Pad", 3), "Mix3": ("Mix3", 3), "TFI": ("std::tuple<f32, i32>", 2), "PSF": ("std::pair<i16, f32>", 2),
    "P2b": ("P2<u8>", 2), "P3b": ("P3<i8>", 3), "P3s": ("P3<u16>", 3), "ABCx": ("ABC<f32, i32, u32>", 3), "P1f": ("P1<f32>", 1), "P1s": ("P1<i16>", 1), "P5f": ("P5<f32>", 5), "P5s": ("P5<i16>", 5),
    "P6f": ("P6<f32>", 6), "P6b": ("P6<u8>", 6), "M9": ("M9", 9), "ABCm": ("ABC<i16, f64, i8>", 3), "ABus": ("AB<u16, i16>", 2), "AR2s": ("std::array<i16, 2>", 2), "PFF": ("std::pair<f32, f32>", 2),
    "AR3": ("std::array<f32, 3>", 3), "TSID": ("std::tuple<i16, i32, f64>", 3),
}
SIZES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32]
SIZES_FB = SIZES + [33, 40, 47, 48, 63, 64, 65, 100]  # <experimental/simd> stops at 32
UNROLLS = [0, 2, 3, 4, 5, 6, 7, 8, 9, 16]
ALS = ["", "al", "au", "ms"]


def preamble():
    return "\n".join("using %s = %s;" % (n, c) for n, (c, _) in STRUCTS.items() if n != c) + "\n"


def nm(t):
    return STRUCTS[t][1] if t in STRUCTS else 1


def tsize(t):
    return SIZE.get(t, 8 * nm(t))


def policy(size, unroll, al, flip=False):
    mods = []
    if al:
        mods.append({"al": ".prefer_aligned()", "au": ".auto_prologue()", "ms": ".assume_matching_size()"}[al])
    if size:
        mods.append(".prefer_size<%d>()" % size)
    if unroll:
        mods.append(".unroll_by<%d>()" % unroll)
    if flip:
        mods.reverse()
    return "simd" + "".join(mods)


def pflags(size, unroll, al):
    f = []
    if al:
        f.append({"al": "sim::F_ALIGNED", "au": "sim::F_AUTO", "ms": "sim::F_MATCH"}[al])
    if size:
        f.append("sim::F_SIZED")
    return " | ".join(f) or "0"


def ptag(size, unroll, al):
    return (al or "") + ("s%d" % size if size else "") + ("u%d" % unroll if unroll else "") or "def"


def cost_ok(t, size, unroll):
    w = size or max(1, 32 // (SIZE.get(t, 4)))
    return w * max(1, unroll) * nm(t) <= 160 and (size or 0) * max(1, unroll) <= 128


class Op:
    def __init__(self, kind, name, code, dims, bad=False, cost=1.0):
        self.kind, self.name, self.code, self.dims, self.bad, self.cost = kind, name, code, dims, bad, cost


def wrap(pol, body):
    return "{ constexpr auto p = %s; %s }" % (pol, body)


def fe(t, size, unroll, al, ck, it, bad=0):
    if unroll:
        ck = "VVAL" if ck in ("VAL", "CREF", "CFOBJ", "VVAL") else "RVREF" if ck in ("RREF", "RVREF") else "VREF"
    if it == "CPTR" and ck not in ("VAL", "CREF", "CFOBJ", "VVAL"):
        ck = "VVAL" if unroll else "VAL"
    n = "%sfe.%s.%s.%s.%s" % ("bad-" if bad else "", t, ptag(size, unroll, al), ck.lower(), it.lower())
    c = wrap(policy(size, unroll, al), 'REG_FE("%s", %s, "%s", p, %s, %d, %d, %s, %s, %d);' % (n, t, t, pflags(size, unroll, al), size, unroll or 1, ck, it, bad))
    return Op("fe", n, c, dict(t=t, s=size, u=unroll, a=al, c=ck, i=it), bad)


def tr1(a, o, size, unroll, al, it, bad=0):
    n = "%str.%s-%s.%s.%s" % ("bad-" if bad else "", a, o, ptag(size, unroll, al), it.lower())
    c = wrap(policy(size, unroll, al, True), 'REG_TR1("%s", %s, "%s", %s, "%s", p, %s, %d, %d, %s, %d);' % (n, a, a, o, o, pflags(size, unroll, al), size, unroll or 1, it, bad))
    return Op("tr", n, c, dict(t=a, o=o, s=size, u=unroll, a=al, i=it), bad)


def trr(a, size, unroll, al, it):
    n = "trr.%s.%s.%s" % (a, ptag(size, unroll, al), it.lower())
    c = wrap(policy(size, unroll, al, True), 'REG_TRR("%s", %s, "%s", p, %s, %d, %d, %s);' % (n, a, a, pflags(size, unroll, al), size, unroll or 1, it))
    return Op("tr", n, c, dict(t=a, o=a, s=size, u=unroll, a=al, i=it, c="raw"))


def tr2(a, b, o, size, unroll, al, it, bad=0):
    n = "%str2.%s-%s-%s.%s.%s" % ("bad-" if bad else "", a, b, o, ptag(size, unroll, al), it.lower())
    c = wrap(policy(size, unroll, al), 'REG_TR2("%s", %s, "%s", %s, "%s", %s, "%s", p, %s, %d, %d, %s, %d);' % (n, a, a, b, b, o, o, pflags(size, unroll, al), size, unroll or 1, it, bad))
    return Op("tr", n, c, dict(t=a, o=o, s=size, u=unroll, a=al, i=it + "2"), bad)


def trz2(a, b, o, size, unroll, al):
    n = "trz2.%s-%s-%s.%s" % (a, b, o, ptag(size, unroll, al))
    c = wrap(policy(size, unroll, al), 'REG_TRZ2("%s", %s, "%s", %s, "%s", %s, "%s", p, %s, %d, %d);' % (n, a, a, b, b, o, o, pflags(size, unroll, al), size, unroll or 1))
    return Op("tr", n, c, dict(t=a, o=o, s=size, u=unroll, a=al, i="Z2"))


def trz3(a, b, d, o, size, unroll, al):
    n = "trz3.%s-%s-%s-%s.%s" % (a, b, d, o, ptag(size, unroll, al))
    c = wrap(policy(size, unroll, al), 'REG_TRZ3("%s", %s, "%s", %s, "%s", %s, "%s", %s, "%s", p, %s, %d, %d);' % (n, a, a, b, b, d, d, o, o, pflags(size, unroll, al), size, unroll or 1))
    return Op("tr", n, c, dict(t=a, o=o, s=size, u=unroll, a=al, i="Z3"))


def red(t, size, unroll, al, form, sem, it, bad=0):
    n = "%sred%d.%s.%s.%s.%s" % ("bad-" if bad else "", form, t, ptag(size, unroll, al), sem[2:].lower(), it.lower())
    c = wrap(policy(size, unroll, al), 'REG_RED("%s", %s, "%s", p, %s, %d, %d, %d, %s, %s, %d);' % (n, t, t, pflags(size, unroll, al), size, unroll or 1, form, sem, it, bad))
    return Op("red", n, c, dict(t=t, s=size, u=unroll, a=al, f=(form, sem), i=it), bad)


def tred(a, b, r, size, unroll, al, form, sem, it, bad=0):
    n = "%stred%d.%s-%s-%s.%s.%s.%s" % ("bad-" if bad else "", form, a, b, r, ptag(size, unroll, al), sem[2:].lower(), it.lower())
    c = wrap(policy(size, unroll, al, True), 'REG_TRED("%s", %s, "%s", %s, "%s", %s, p, %s, %d, %d, %d, %s, %s, %d);' % (n, a, a, b, b, r, pflags(size, unroll, al), size, unroll or 1, form, sem, it, bad))
    return Op("red", n, c, dict(t=a, o=r, s=size, u=unroll, a=al, f=(form + 10, sem), i=it), bad, 1.2)


def cnt(t, size, unroll, al, sem, it, bad=0):
    n = "%scnt.%s.%s.%s.%s" % ("bad-" if bad else "", t, ptag(size, unroll, al), sem[2:].lower(), it.lower())
    c = wrap(policy(size, unroll, al), 'REG_CNT("%s", %s, "%s", p, %s, %d, %d, %s, %s, %d);' % (n, t, t, pflags(size, unroll, al), size, unroll or 1, sem, it, bad))
    return Op("cnt", n, c, dict(t=t, s=size, u=unroll, a=al, f=sem, i=it), bad)


# ---------------------------------------------------------------- candidate generators
SAFE_WIDE = {("i8", "i16"), ("i8", "i32"), ("u8", "i32"), ("i16", "i32"), ("i16", "f32"), ("i32", "f64"), ("f32", "f64"), ("f64", "f32"), ("i32", "i16"),
             ("i64", "i32"), ("f32", "i32"), ("u16", "f32"), ("i16", "u8"), ("f64", "i16"), ("i32", "i8"), ("u8", "f64"), ("i64", "f64"), ("f32", "i16")}
TRP = [(t, t) for t in SCAL] + sorted(SAFE_WIDE) + [("P2f", "f32"), ("f32", "P2f"), ("P3f", "P3f"), ("P2s", "P2s"), ("P2f", "P2f"), ("Mix", "f32"), ("f32", "Mix"), ("P3f", "f32"),
       ("f32", "P3f"), ("P4f", "P4f"), ("ABdf", "ABfi"), ("Pad", "Pad"), ("Mix3", "Mix3"), ("TFI", "TFI"), ("i16", "PSF"), ("AR3", "AR3"), ("P3i", "P3f"), ("P2d", "f64"), ("chr", "chr"), ("wch", "wch"),
       ("c16", "c16"), ("c32", "c32"), ("ll", "ll"), ("TSID", "f64"), ("P4b", "P4b")]
TR2P = [("f32", "f32", "f32"), ("i32", "i32", "i32"), ("i16", "i16", "i32"), ("f64", "f32", "f64"), ("i8", "i16", "i32"), ("u8", "u8", "u8"), ("i32", "f32", "f32"), ("P2f", "f32", "f32"),
        ("P2f", "P2f", "P2f"), ("i64", "i32", "f64"), ("f32", "P3f", "P2f"), ("u16", "u16", "u16"), ("f32", "i8", "i16"), ("Mix", "i32", "Mix"), ("i16", "f64", "f32"), ("P3f", "P3f", "P3f")]
TR3P = [("f32", "f32", "f32", "f32"), ("i32", "i16", "f32", "f64"), ("i8", "i8", "i8", "i8"), ("P2f", "f32", "i32", "P2f"), ("f64", "f64", "f64", "f64")]
ITS = ["PTR", "VEC", "SPAN", "STD", "CIT", "URNG", "SVEC"]


def rand_fe(g):
    t = g.choice(SCAL * 2 + SCALX + list(STRUCTS))
    return fe(t, g.choice(g.sizes), g.choice(UNROLLS), g.choice(ALS), g.choice(["REF", "VAL", "CREF", "VREF", "VVAL", "FOBJ", "CFOBJ", "RREF", "RVREF"]), g.choice(ITS + ["CPTR"]))


def rand_tr(g):
    s, u, al = g.choice(g.sizes), g.choice(UNROLLS), g.choice(ALS)
    x = g.random()
    if x < 0.12:
        return trr(g.choice(SCAL * 2 + SCALX + list(STRUCTS)), s, u, al, g.choice(ITS + ["CPTR"]))
    if x < 0.5:
        return tr1(*g.choice(TRP), s, u, al, g.choice(ITS + ["CPTR"]))
    if x < 0.8:
        return tr2(*g.choice(TR2P), s, u, al, g.choice(ITS + ["CPTR"]))
    if x < 0.9:
        return trz2(*g.choice(TR2P), s, u, al)
    return trz3(*g.choice(TR3P), s, u, al)


REDF = [(0, "S_SUM"), (1, "S_SUM"), (2, "S_SUM"), (2, "S_MAX"), (2, "S_MIN"), (2, "S_XOR"), (3, "S_SUM"), (3, "S_XOR"), (3, "S_MUL"), (3, "S_AND"), (3, "S_OR"), (2, "S_MUL"), (2, "S_AND")]
TREDF = [(0, "S_DOT"), (1, "S_DOT"), (1, "S_MAXD"), (2, "S_SUMK"), (2, "S_MAX"), (2, "S_MIN")]
FLOATS = {"f32", "f64"}
TREDP = {0: [("i32", "i32", "i32"), ("f32", "f32", "f32"), ("f64", "f64", "f64"), ("i16", "i16", "i16"), ("i8", "i8", "i8"), ("u16", "u16", "u16"), ("i64", "i64", "i64")],
         1: [("i32", "i32", "i32"), ("f32", "f32", "f32"), ("f64", "f32", "f64"), ("i16", "i16", "i32"), ("i8", "i8", "i32"), ("f32", "f32", "f64"), ("i16", "i32", "i64"), ("u8", "u8", "i32"),
             ("i32", "i16", "f64"), ("f32", "i32", "f32"), ("i64", "i64", "i64"), ("u16", "u16", "u16")],
         2: [(t, t, t) for t in SCAL] + [("P2f", "P2f", "f32"), ("P3f", "P3f", "f32"), ("Mix", "Mix", "f64"), ("i16", "i16", "i32"), ("f32", "f32", "f64"), ("f64", "f64", "f32"), ("i8", "i8", "i16"), ("P4f", "P4f", "f64"),
                                         ("Pad", "Pad", "i32"), ("TFI", "TFI", "f32"), ("P2s", "P2s", "i32")]}


def rand_red(g):
    s, u, al, it = g.choice(g.sizes), g.choice(UNROLLS), g.choice(ALS), g.choice(ITS + ["CPTR"])
    if g.random() < 0.45:
        f, sem = g.choice(REDF)
        t = g.choice([x for x in SCAL + ["ll", "wch"] if not (sem in ("S_XOR", "S_AND", "S_OR") and x in FLOATS) and not (sem == "S_MUL" and x not in ("u8", "u32", "u64"))])
        return red(t, s, u, al, f, sem, it)
    f, sem = g.choice(TREDF)
    return tred(*g.choice([p for p in TREDP[f] if sem == "S_SUMK" or p[0] in SIZE]), s, u, al, f, sem, it)


def rand_cnt(g):
    t = g.choice(SCAL * 2 + SCALX + list(STRUCTS))
    return cnt(t, g.choice(g.sizes), g.choice(UNROLLS), g.choice(ALS), g.choice(["S_LT", "S_EQ", "S_ALL", "S_RAW"]), g.choice(ITS + ["CPTR"]))


RAND = dict(fe=rand_fe, tr=rand_tr, red=rand_red, cnt=rand_cnt)

# core ops that are always there, most important first
CORE = {
    "fe": [("f32", 0, 0, "", "REF", "PTR"), ("f32", 0, 0, "al", "REF", "PTR"), ("i16", 0, 0, "", "VAL", "VEC"), ("i32", 0, 4, "", "VREF", "SPAN"), ("P3f", 0, 0, "", "REF", "PTR"), ("f64", 0, 3, "al", "VREF", "STD"), ("f32", 0, 0, "", "RREF", "VEC"),
           ("u8", 0, 0, "al", "FOBJ", "CIT"), ("i8", 0, 0, "au", "REF", "PTR"), ("f32", 0, 2, "ms", "VREF", "PTR"), ("f32", 8, 0, "", "CREF", "PTR"), ("i32", 5, 0, "", "REF", "URNG"), ("i16", 31, 0, "", "REF", "PTR"),
           ("P2f", 4, 0, "ms", "REF", "VEC"), ("Mix", 0, 0, "", "REF", "PTR"), ("f32", 12, 0, "al", "REF", "PTR"), ("i32", 0, 5, "au", "VVAL", "PTR"), ("u16", 0, 0, "al", "VAL", "PTR"), ("i64", 16, 2, "al", "VREF", "PTR")],
    "tr": [("tr1", "f32", "f32", 0, 0, "", "PTR"), ("tr1", "i32", "i32", 0, 0, "al", "PTR"), ("tr2", "f32", "f32", "f32", 0, 0, "", "PTR"), ("tr1", "i16", "f32", 0, 2, "", "VEC"), ("tr1", "u8", "u8", 0, 0, "al", "SPAN"),
           ("tr2", "i32", "i32", "i32", 0, 3, "al", "STD"), ("tr1", "P2f", "P2f", 0, 0, "", "PTR"), ("trr", "f32", 0, 0, "", "PTR"), ("trz2", "f32", "f32", "f32", 0, 0, ""), ("trz3", "f32", "f32", "f32", "f32", 0, 2, ""), ("tr1", "f64", "f64", 0, 4, "ms", "PTR"),
           ("tr1", "f32", "f64", 5, 0, "", "PTR"), ("tr2", "i16", "i16", "i32", 12, 0, "au", "PTR"), ("tr1", "i8", "i8", 0, 0, "au", "CIT"), ("tr1", "P3f", "P3f", 0, 0, "", "URNG"), ("tr1", "f32", "f32", 31, 0, "", "PTR")],
    "red": [("red", "i32", 0, 0, "", 2, "S_SUM", "PTR"), ("red", "f32", 0, 0, "al", 1, "S_SUM", "PTR"), ("tred", "i32", "i32", "i32", 0, 0, "", 1, "S_DOT", "PTR"), ("red", "i16", 0, 4, "", 2, "S_MAX", "VEC"),
            ("tred", "f32", "f32", "f32", 0, 2, "al", 0, "S_DOT", "STD"), ("tred", "P2f", "P2f", "f32", 0, 0, "", 2, "S_SUMK", "PTR"), ("red", "u8", 0, 3, "al", 2, "S_MIN", "SPAN"), ("red", "f64", 0, 0, "ms", 0, "S_SUM", "PTR"), ("red", "u32", 0, 0, "", 3, "S_MUL", "PTR"),
            ("tred", "i8", "i8", "i32", 0, 5, "", 1, "S_MAXD", "PTR"), ("red", "i32", 12, 0, "", 2, "S_XOR", "PTR"), ("red", "f32", 5, 2, "", 2, "S_SUM", "CIT"), ("red", "i64", 0, 7, "au", 2, "S_MAX", "URNG"),
            ("tred", "i16", "i16", "i16", 7, 0, "al", 2, "S_SUMK", "PTR"), ("red", "f32", 31, 0, "", 2, "S_MIN", "PTR")],
    "cnt": [("f32", 0, 0, "", "S_LT", "PTR"), ("i32", 0, 0, "al", "S_LT", "PTR"), ("i16", 0, 4, "", "S_EQ", "VEC"), ("u8", 0, 0, "", "S_ALL", "SPAN"), ("i8", 0, 2, "al", "S_LT", "STD"), ("P2f", 0, 0, "", "S_LT", "PTR"), ("f32", 0, 0, "", "S_RAW", "PTR"),
            ("f64", 0, 3, "ms", "S_EQ", "PTR"), ("f32", 5, 0, "", "S_ALL", "CIT"), ("i64", 0, 0, "au", "S_LT", "PTR"), ("u16", 12, 2, "", "S_LT", "URNG"), ("f32", 31, 0, "", "S_LT", "PTR"), ("P3f", 4, 0, "", "S_EQ", "PTR")],
}
CORE_FB = {"fe": [("i16", 64, 0, "", "REF", "PTR")], "tr": [("tr1", "i16", "i16", 64, 0, "", "PTR")], "red": [("red", "i32", 64, 0, "", 2, "S_SUM", "PTR")], "cnt": [("u8", 64, 0, "", "S_LT", "PTR")]}
MK = dict(tr1=tr1, trr=trr, tr2=tr2, trz2=trz2, trz3=trz3, red=red, tred=tred)


def core_ops(kind, mode):
    l = CORE[kind]
    if "fb" in mode:
        l = l[:5] + CORE_FB[kind] + l[5:]
    if kind == "fe":
        return [fe(*a) for a in l]
    if kind == "cnt":
        return [cnt(*a) for a in l]
    return [MK[a[0]](*a[1:]) for a in l]


def pairs(o):
    d = sorted(o.dims.items(), key=lambda kv: kv[0])
    r = []
    for i in range(len(d)):
        r.append((d[i],))
        for j in range(i + 1, len(d)):
            r.append((d[i], d[j]))
    return r


def covering(kind, seed, count, core=True, ok=lambda o: True, mode="o2"):
    """core ops followed by a greedy pairwise covering sequence"""
    g = random.Random("%s/%s" % (kind, seed))
    g.sizes = SIZES_FB if "fb" in mode else SIZES
    out, seen, names = [], set(), set()

    def add(o):
        out.append(o)
        names.add(o.name)
        seen.update(pairs(o))
    if core:
        for o in core_ops(kind, mode):
            if len(out) < count and ok(o):
                add(o)
    while len(out) < count:
        best, bs = None, -1
        for _ in range(24):
            o = RAND[kind](g)
            d = o.dims
            if o.name in names or not ok(o) or not cost_ok(d["t"], d["s"], d["u"]) or ("o" in d and not cost_ok(d["o"], d["s"], d["u"])):
                continue
            sc = sum(1 if len(p) == 2 else 3 for p in pairs(o) if p not in seen)
            if sc > bs:
                best, bs = o, sc
        if best is None:
            break
        add(best)
    return out


# ---------------------------------------------------------------- loads and stores
LSTY = SCAL + ["chr", "c16", "wch"]
LSW = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 24, 31, 32]
LSW_FB = LSW + [33, 48, 63, 64]
LSCONV = [("f32", "i16", "f32"), ("i32", "i8", "i64"), ("f64", "f32", "i32"), ("f32", "f64", "i16"), ("i16", "i16", "i32"), ("u8", "i32", "u8"), ("i64", "i32", "f64"), ("f32", "f32", "f64"), ("i8", "i8", "i16")]


def ls(t, n, a, o, fl, st, sem):
    nme = "ls.%s.%d.%s-%s.%s%d%s" % (t, n, a, o, fl.lower(), st, {"S_RAW": "r", "S_CVT": "c"}.get(sem, ""))
    return Op("ls", nme, '{ REG_LS("%s", %s, %d, %s, "%s", %s, "%s", %s, %d, %s); }' % (nme, t, n, a, a, o, o, fl, st, sem), dict(t=t, s=n, i=fl, c=st, o=o, a=a))


def lsm(t, n, fl, st):
    nme = "lsm.%s.%d.%s%d" % (t, n, fl.lower(), st)
    return Op("ls", nme, '{ REG_LSM("%s", %s, %d, %s, %d); }' % (nme, t, n, fl, st), dict(t=t, s=n, i=fl, c=st, o="mask"))


def ls_ops(seed, count, mode="o2", structs=True, matrix=False, full=True):
    g = random.Random("ls/%s" % seed)
    out, names = [], set()

    def add(o):
        if o.name not in names and len(out) < count:
            names.add(o.name)
            out.append(o)
    if matrix and "fb" in mode:
        # every (lane type, memory type) pair, for constructor and copy_from, array and scalar representation
        for i, x in enumerate(SCAL):
            for j, y in enumerate(SCAL):
                for st in (0, 1):
                    for n in (g.choice(LSW_FB[3:]), 1):
                        if n == 1 and not full:
                            continue
                        z = SCAL[(3 * i + j + 5 * st + n) % 10]
                        add(ls(x, n, y, z, g.choice(["EA", "EA", "VA", "OA"]), st, "S_CVT" if x != y or x != z else "S_RAW"))
    # structs first: every width matters for the permuting loads
    combos = [(s, n) for s in STRUCTS for n in (0, 1, 2, 3, 4, 5, 7, 8, 16)]
    g.shuffle(combos)
    # (struct, width) pairs with their own shuffling code in vir/simdize.h, then everything else
    base = [("P3f", 8), ("P2f", 8), ("P3f", 4), ("P2s", 8), ("P3b", 16), ("P2d", 4), ("P3s", 8), ("P3b", 32), ("P2s", 16), ("P2b", 16), ("P3d", 4), ("P3i", 8), ("P3s", 16), ("P2f", 4), ("P3b", 8), ("P2b", 32), ("ABCx", 8), ("P3s", 4),
            ("ABfi", 8), ("P2b", 4), ("P3b", 4), ("P3i", 4), ("ABus", 16), ("ABCx", 4), ("P2b", 8), ("ABfi", 4), ("PFF", 8), ("P2s", 4), ("AR3", 8), ("AR2s", 8), ("ABus", 8), ("P2d", 2), ("P3f", 16), ("P2f", 16), ("P3d", 2), ("AR3", 4)]
    rest = [(s, 0) for s in STRUCTS]
    if "sse" in mode or "fb" in mode:
        g.shuffle(base)
    g.shuffle(rest)
    base = [x for p in zip(base, rest) for x in p] + base[len(rest):] + rest[len(base):]
    i = 0
    todo = base + combos
    while len(out) < count and (i < len(todo) or i < 4000):
        if structs and i < len(todo):
            s, n = todo[i]
            add(ls(s, n, s, s, "EA", 0, g.choice(["S_ADD", "S_ADD", "S_RAW"])))
        t, n = g.choice(LSTY), g.choice(LSW_FB if "fb" in mode else LSW)
        k = i % 3
        fl = g.choice(["EA", "EA", "VA", "OA"])
        if k == 0:
            add(ls(t, n, t, t, fl, g.randrange(2), g.choice(["S_ADD", "S_RAW"])))
        elif k == 1:
            add(lsm(t, n, fl, g.randrange(2)))
        else:
            if g.random() < .3:
                a = g.choice(LSCONV)
                add(ls(a[0], n, a[1], a[2], fl, g.randrange(2), "S_ADD"))
            else:
                x, y, z = g.choice(SCAL), g.choice(SCAL), g.choice(SCAL)
                if g.random() < .4:
                    y, z = (x, z) if g.random() < .5 else (y, x)
                add(ls(x, n, y, z, fl, g.randrange(2), "S_CVT"))
        i += 1
    return out


# ---------------------------------------------------------------- masked loads and stores (fallback)
MLSW = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 17, 31, 32, 33, 64]


def mls_ops(seed, count, matrix=False):
    g = random.Random("mls/%s" % seed)
    out, names = [], set()
    i = 0
    if matrix:
        # every (lane type, memory type) pair, load and store, through const and non-const where expressions
        for j, t in enumerate(SCAL):
            for u in SCAL:
                for k in range(4):
                    n, fl = g.choice(MLSW[2:] if j % 2 else MLSW), g.choice(["EA", "EA", "VA", "OA"])
                    nme = "%s.%s.%d.%s.%s%d" % ("mldc" if k & 1 else "mstc", t, n, u, fl.lower(), k >> 1)
                    code = 'REG_%s("%s", %s, "%s", %d, %s, "%s", %s, %s);' % ("MLDC" if k & 1 else "MSTC", nme, t, t, n, u, u, fl, "true" if k >> 1 else "false")
                    names.add(nme)
                    out.append(Op("mls", nme, "{ %s }" % code, {}, cost=0.5))
    while len(out) < count and i < 5000:
        i += 1
        t, n = g.choice(SCAL + ["chr", "c16"]), g.choice(MLSW)
        fl = g.choice(["EA", "EA", "VA", "OA"])
        k = (i - 1) % 7
        c = g.randrange(2)
        if k in (0, 1) and g.random() < .4:
            nme = "%s.%s.%d.%s%d" % ("mstr" if k == 0 else "mldr", t, n, fl.lower(), c)
            code = 'REG_%s("%s", %s, "%s", %d, %s, %s);' % ("MSTR" if k == 0 else "MLDR", nme, t, t, n, fl, "true" if c else "false")
        elif k in (0, 1, 3, 4) and g.random() < .5:
            t, u = g.choice(SCAL), g.choice(SCAL)
            nme = "%s.%s.%d.%s.%s%d" % ("mstc" if k in (0, 3) else "mldc", t, n, u, fl.lower(), c)
            code = 'REG_%s("%s", %s, "%s", %d, %s, "%s", %s, %s);' % ("MSTC" if k in (0, 3) else "MLDC", nme, t, t, n, u, u, fl, "true" if c else "false")
        elif k in (0, 3):
            u = t if g.random() < .5 else g.choice(SCAL)
            nme = "mst.%s.%d.%s.%s%d" % (t, n, u, fl.lower(), c)
            code = 'REG_MST("%s", %s, %d, %s, "%s", %s, %s);' % (nme, t, n, u, u, fl, "true" if c else "false")
        elif k in (1, 4):
            u = t if g.random() < .5 else g.choice(SCAL)
            nme = "mld.%s.%d.%s.%s%d" % (t, n, u, fl.lower(), c)
            code = 'REG_MLD("%s", %s, "%s", %d, %s, "%s", %s, %s);' % (nme, t, t, n, u, u, fl, "true" if c else "false")
        elif k == 2:
            nme = "mstm.%s.%d.%s%d" % (t, n, fl.lower(), c)
            code = 'REG_MSTM("%s", %s, %d, %s, %s);' % (nme, t, n, fl, "true" if c else "false")
        elif k == 5:
            st = g.randrange(3)
            nme = "mldm.%s.%d.%s%d" % (t, n, fl.lower(), st)
            code = 'REG_MLDM("%s", %s, %d, %s, %d);' % (nme, t, n, fl, st)
        else:
            u = t if g.random() < .5 else g.choice(SCAL)
            if g.random() < .5:
                nme = "mbs.%s.%s.%d" % (t, u, c)
                code = 'REG_MBS("%s", %s, %s, "%s", %s);' % (nme, t, u, u, "true" if c else "false")
            else:
                nme = "mbl.%s.%s.%d" % (t, u, c)
                code = 'REG_MBL("%s", %s, "%s", %s, "%s", %s);' % (nme, t, t, u, u, "true" if c else "false")
        if nme in names:
            continue
        names.add(nme)
        out.append(Op("mls", nme, "{ %s }" % code, {}, cost=0.5))
    return out


# ---------------------------------------------------------------- value operations (differential only)
VAL_ANY = "v_rev v_rot1 v_rot2 v_shift1 v_shiftm2 v_bcl v_bcf v_lam v_shin v_shin2 v_resz v_resz1 v_reszm v_bits v_frombits v_iota v_sum v_hmax v_hmin v_add v_minmax v_clamp v_cmp v_pop v_ffs v_fls v_where v_subs v_castf v_castd v_castc v_div v_sidx v_arith v_rel v_mops v_mred v_msub v_whr v_whm v_wred v_red v_conv v_gen v_szc v_szm v_cvt v_fake v_mcast v_mm v_iotab v_bitf".split()
VAL_EVEN = "v_dupe v_swap v_spla v_split".split()
VAL_FLT = "v_fop v_sqrt v_floor v_sin v_exp v_ldexp v_frexp v_modf v_fma v_hyp3 v_abs v_isnan v_bcast".split() + ["v_m_" + m for m in (
    "cos tan asin acos atan sinh cosh tanh asinh acosh atanh log log10 log1p log2 logb erf erfc tgamma lgamma trunc ceil round nearbyint rint isfinite isinf isnormal signbit fpclassify "
    "lround llround lrint llrint ilogb pow fmod remainder nextafter copysign fdim fmax fmin isgreater isgreaterequal isless islessequal islessgreater isunordered atan2 hypot fma3 remquo scalb").split()]
VAL_INT = "v_shl v_mod v_not v_intop v_whri".split()


# what is the repository's own code on top of <experimental/simd>; everything else exercises libstdc++ there
VAL_VIR = set("v_rev v_rot1 v_rot2 v_shift1 v_shiftm2 v_bcl v_bcf v_lam v_dupe v_swap v_shin v_shin2 v_resz v_resz1 v_bits v_frombits v_iota v_fop v_bcast v_szc v_szm v_cvt v_fake v_iotab v_bitf".split())


def val_ok(mode, v, t, n):
    if "fb" in mode:
        return v != "v_exp" and not (v == "v_conv" and n in (0, 1))
    if v not in VAL_VIR:
        return False
    if v in ("v_rev", "v_rot1", "v_rot2", "v_shift1", "v_shiftm2", "v_bcl", "v_bcf", "v_lam") and n == 5:
        return False
    if v in ("v_resz", "v_szc") and n == 0 and SIZE[t] == 1:
        return False
    if v == "v_fop" and n != 0:
        return False
    return True


def val_ops(seed, count, mode="o2", only=None):
    g = random.Random("val/%s" % seed)
    cand = []
    for v in only or VAL_ANY + VAL_EVEN + VAL_FLT + VAL_INT:
        for t in SCAL:
            if v in VAL_FLT and t not in FLOATS:
                continue
            if v in VAL_INT and t in FLOATS:
                continue
            for n in (0, 1, 4, 5, 8):
                if v in VAL_EVEN and n in (1, 5):
                    continue
                if val_ok(mode, v, t, n):
                    cand.append((v, t, n))
    g.shuffle(cand)
    seenv, first, rest = {}, [], []
    for c in cand:
        (first if seenv.setdefault(c[0], 0) < 1 else rest).append(c)
        seenv[c[0]] += 1
    out = []
    for v, t, n in (first + rest)[:count]:
        nme = "val.%s.%s.%d" % (v[2:], t, n)
        out.append(Op("val", nme, '{ REG_VAL("%s", %s, %s, "%s", %d); }' % (nme, v, t, t, n), {}, cost=0.4))
    return out


# ---------------------------------------------------------------- violated preconditions
def bad_alg_ops(seed, count):
    g = random.Random("bad/%s" % seed)
    out, names = [], set()
    i = 0
    while len(out) < count and i < 3000:
        i += 1
        t = g.choice(SCAL)
        s, u = g.choice([0, 0, 2, 3, 4, 5, 8, 12, 16]), g.choice([0, 0, 2, 3, 4])
        it = g.choice(ITS)
        if not cost_ok(t, s, u):
            continue
        if not s and SIZE[t] >= 8:
            s = 4
        k = (i - 1) % 6
        if k == 0:
            o = fe(t, s, u, "ms", g.choice(["REF", "VAL", "CREF", "FOBJ"]), it, 1)
        elif k == 1:
            o = tr1(t, t, s, u, "ms", it, 1)
        elif k == 2:
            o = tr2(t, t, t, s, u, "ms", it, 1)
        elif k == 3:
            o = red(t, s, u, "ms", g.choice([0, 1, 2]), "S_SUM", it, 1)
        elif k == 4:
            o = tred(t, t, t, s, u, "ms", g.choice([1, 2]), "S_SUM", it, 1)
        else:
            o = cnt(t, s, u, "ms", "S_LT", it, 1)
        if o.name in names:
            continue
        names.add(o.name)
        out.append(o)
    return out


def bad_fb_ops(seed, count):
    g = random.Random("badfb/%s" % seed)
    out = []
    cand = [(t, n, b) for t in SCAL for n in (0, 1, 4, 5) for b in ("B_SUB", "B_CSUB", "B_MSUB", "B_CMSUB", "B_FFS", "B_FLS")]
    g.shuffle(cand)
    first, seen = [], set()
    for c in cand:
        if (c[2], c[1] == 1) not in seen:
            seen.add((c[2], c[1] == 1))
            first.append(c)
    rest = [c for c in cand if c not in first]
    for t, n, b in (first + rest)[:count]:
        nme = "bad-%s.%s.%d" % (b[2:].lower(), t, n)
        out.append(Op("bad", nme, '{ REG_BAD("%s", %s, "%s", %d, %s); }' % (nme, t, t, n, b), {}, True, cost=0.4))
    return out


# ---------------------------------------------------------------- ranges of more than 2^32 elements
HUGE = {1: [("fe_val", 0, 0, ""), ("fe_ref", 0, 0, "al"), ("fe_val", 0, 4, "au"), ("fe_ref", 0, 3, "")],
        2: [("tr", 0, 0, ""), ("tr", 0, 0, "al"), ("tr2", 0, 4, "au"), ("tr", 31, 0, "")],
        3: [("red", 0, 0, ""), ("tred", 0, 4, "al"), ("tred2", 0, 0, "au"), ("red", 0, 3, "")],
        4: [("cnt", 0, 0, ""), ("cnt", 0, 0, "al"), ("cnt", 0, 4, "au"), ("cnt", 31, 0, "")]}


def huge_ops(prop):
    out = []
    for k, s, u, a in HUGE[prop]:
        n = "huge.%s.%s" % (k, ptag(s, u, a))
        out.append(Op("huge", n, 'REG_HUGE("%s", %d, %s, (%s));' % (n, prop, k, policy(s, u, a)), {}))
    return out
