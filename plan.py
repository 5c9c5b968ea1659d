"""What each check explores: the list of harness instances per property and tier.

An instance is (name, body, options).  Options:
  modes   which builds: "dev" (overflow checks) and/or "rel" (wrapping arithmetic)
  flags   extra engine flags
  cost    rough relative cost, used only to start the long ones first
  serde   needs the crate's serde feature
"""

# ---- operand kinds -----------------------------------------------------------------------------
STD = ["R", "RI", "RF", "RT", "RTI", "RFULL"]
OWN = ["BR", "LBR", "UBR", "UR", "ER"]
RANGES = STD + OWN
SETS = ["BS", "LBS", "UBS", "US"]


def k(kind, n, desc):
    """A kind with its size and insertion order."""
    if kind in SETS:
        return "%s<%d,%s>" % (kind, n, "true" if desc else "false")
    return kind


def tag(*kinds):
    return "_".join(x.replace(",0", "o").replace(",1", "r").replace(",2", "m").replace("<", "").replace(">", "").replace(",true", "d").replace(",false", "a") for x in kinds)


INTS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "u128", "i128"]


class Plan:
    def __init__(self):
        self.items = []
        self.names = set()

    def add(self, name, body, modes=("dev",), flags=(), cost=1):
        if name in self.names:
            return
        self.names.add(name)
        self.items.append(dict(name=name, body=body, modes=list(modes), flags=list(flags), cost=cost))


def weight(kind):
    return {"BS": 3, "LBS": 5, "UBS": 5, "US": 8}.get(kind, 1)


def pairs(p, macro, short, sizes, kinds=RANGES + SETS + ["USF"], swap=False):
    """All ordered pairs of operand kinds.  sizes(a, b) -> list of (size of a, size of b)."""
    for a in kinds:
        for b in kinds:
            for (na, nb) in sizes(a, b):
                for (da, db) in ([(False, True), (True, False)] if swap else [(False, True)]):
                    x, y = k(a, na, da), k(b, nb, db)
                    w = weight(a) * weight(b) * (4 ** (na if a in SETS else 0)) * (4 ** (nb if b in SETS else 0))
                    p.add("%s_%s" % (short, tag(x, y)), "%s!(%s, %s)" % (macro, x, y), cost=w)


def sizes_quick(a, b):
    sa, sb = a in SETS, b in SETS
    if sa and sb:
        if a == "US" or b == "US":
            return [(1, 1)] if a == b else [(1, 1)]
        return [(2, 2)] if a == b == "BS" else [(1, 1)]
    if sa:
        return [({"BS": 3, "LBS": 2, "UBS": 2, "US": 2}[a], 0)]
    if sb:
        return [(0, {"BS": 3, "LBS": 2, "UBS": 2, "US": 2}[b])]
    return [(0, 0)]


def sizes_thorough(a, b):
    sa, sb = a in SETS, b in SETS
    if sa and sb:
        n = {"BS": 2, "LBS": 2, "UBS": 2, "US": 1}
        r = [(n[a], n[b])]
        if a == "BS" and b == "BS":
            r = [(2, 3), (3, 2)]
        elif a == "US" and b != "US":
            r = [(2, 1), (1, 2)] if b != "BS" else [(2, 2)]
        elif b == "US" and a != "US":
            r = [(1, 2), (2, 1)] if a != "BS" else [(2, 2)]
        elif a == b == "US":
            r = [(2, 1), (1, 2)]
        return r
    if sa:
        return [({"BS": 5, "LBS": 4, "UBS": 4, "US": 4}[a], 0)]
    if sb:
        return [(0, {"BS": 5, "LBS": 4, "UBS": 4, "US": 4}[b])]
    return [(0, 0)]


def wide(kind, n, order=0):
    """A set of exactly n pieces whose bounds' kinds are fixed by position: many pieces, few paths."""
    return "W%s<%d,%d>" % (kind, n, order)


def wide_pairs(p, macro, short, deep, flags=()):
    """Large sets against every kind of range, and medium sets against each other."""
    n = 8 if deep else 6
    for a in SETS:
        for (j, r) in enumerate(RANGES):
            if r in ("ER", "RFULL", "UR"):
                continue
            k1 = n - (0 if a == "BS" else 1 if a != "US" else 2)
            x = wide(a, k1, j % 3)
            p.add("%s_%s" % (short, tag(x, r)), "%s!(%s, %s)" % (macro, x, r), flags=flags, cost=20)
            p.add("%s_%s" % (short, tag(r, x)), "%s!(%s, %s)" % (macro, r, x), flags=flags, cost=20)
    m = 4 if deep else 3
    for a in SETS:
        for b in SETS:
            na = m - (1 if a == "US" else 0)
            nb = m - (1 if b == "US" else 0)
            x, y = wide(a, na, 0), wide(b, nb, 1 if a == "BS" else 2)
            p.add("%s_%s" % (short, tag(x, y)), "%s!(%s, %s)" % (macro, x, y), flags=flags, cost=40)


def long(kind, n, order=0, shift=False):
    """A set of n pieces at fixed distances: as many pieces as the element type has room for."""
    return "N%s<%d,%d,%s>" % (kind, n, order, "true" if shift else "false")


def long_pairs(p, macro, short, deep):
    """Sets of a dozen and more pieces against a range, and against each other at any offset."""
    F = ["--fork-select"]
    n, m = (22, 20) if deep else (17, 10)
    for (x, r) in [(long("BS", n, 0), "BR"), (long("LBS", m, 1), "BR"), (long("LBS", m, 0), "LBR"), (long("UBS", m, 2), "BR"), (long("UBS", m, 0), "UBR"), (long("US", m, 1), "BR"), (long("US", m, 0), "LBR")]:
        p.add("%s_%s" % (short, tag(x, r)), "%s!(%s, %s)" % (macro, x, r), flags=F, cost=150)
        if deep:
            p.add("%s_%s" % (short, tag(r, x)), "%s!(%s, %s)" % (macro, r, x), flags=F, cost=150)
    for a in SETS:
        for b in SETS:
            x, y = long(a, 10, 0, True), long(b, 12, 2 if a == "BS" else 1)
            p.add("%s_%s" % (short, tag(x, y)), "%s!(%s, %s)" % (macro, x, y), flags=F, cost=3)


def release_pairs(p, macro, short):
    """Without overflow checks and debug assertions."""
    F = ["--fork-select"]
    some = lambda a, n, o: long(a, n, o, True) if a == "US" else wide(a, n, o)
    for a in SETS:
        for b in SETS:
            x, y = some(a, 2, 0), some(b, 2, 1)
            p.add("%s_r_%s" % (short, tag(x, y)), "%s!(%s, %s)" % (macro, x, y), modes=("rel",), flags=F, cost=5)
        x = some(a, 3, 0)
        p.add("%s_r_%s" % (short, tag(x, "BR")), "%s!(%s, BR)" % (macro, x), modes=("rel",), flags=F, cost=5)
        p.add("%s_r_%s" % (short, tag("BR", x)), "%s!(BR, %s)" % (macro, x), modes=("rel",), flags=F, cost=5)
    for a in ["BR", "LBR", "UBR", "R", "RI"]:
        for b in ["BR", "LBR", "UBR"]:
            p.add("%s_r_%s" % (short, tag(a, b)), "%s!(%s, %s)" % (macro, a, b), modes=("rel",))


# ---- the properties ----------------------------------------------------------------------------
def c01(p, deep):
    pairs(p, "union_pair", "u", sizes_thorough if deep else sizes_quick, swap=deep)
    wide_pairs(p, "union_pair", "uw", deep)
    long_pairs(p, "union_pair", "un", deep)
    release_pairs(p, "union_pair", "u")


def c02(p, deep):
    pairs(p, "inter_pair", "i", sizes_thorough if deep else sizes_quick, swap=deep)
    wide_pairs(p, "inter_pair", "iw", deep)
    long_pairs(p, "inter_pair", "in", deep)
    release_pairs(p, "inter_pair", "i")


def c03(p, deep):
    for a in RANGES + ["USF"]:
        p.add("c_" + tag(a), "compl!(%s)" % a)
        if a not in ("RFULL", "UR"):  # (their complement has no element type of its own)
            p.add("cc_" + tag(a), "compl2!(%s)" % a)
    n = dict(BS=3, LBS=3, UBS=3, US=3) if not deep else dict(BS=6, LBS=5, UBS=5, US=5)
    m = dict(BS=2, LBS=2, UBS=2, US=2) if not deep else dict(BS=4, LBS=3, UBS=3, US=3)
    for a in SETS:
        for d in (False, True):
            x, y = k(a, n[a], d), k(a, m[a], d)
            p.add("c_" + tag(x), "compl!(%s)" % x, flags=["--fork-select"], cost=20)
            p.add("cc_" + tag(y), "compl2!(%s)" % y, flags=["--fork-select"], cost=30)
    for a in SETS:
        for o in (0, 1, 2):
            x, y = wide(a, 8 if deep else 6, o), wide(a, 7 if deep else 5, o)
            p.add("c_" + tag(x), "compl!(%s)" % x, flags=["--fork-select"], cost=20)
            p.add("cc_" + tag(y), "compl2!(%s)" % y, flags=["--fork-select"], cost=30)
    for a in SETS:
        for o in (0, 1, 2):
            x = long(a, 17, o, True)
            p.add("c_" + tag(x), "compl!(%s)" % x, flags=["--fork-select"], cost=5)
            y = long(a, 10, o, True)
            p.add("cc_" + tag(y), "compl2!(%s)" % y, flags=["--fork-select"], cost=5)
        p.add("c_r_" + tag(wide(a, 4)), "compl!(%s)" % wide(a, 4), modes=("rel",), flags=["--fork-select"], cost=5)
    for a in ("BR", "LBR", "UBR"):
        p.add("c_r_" + a, "compl!(%s)" % a, modes=("rel",))
    p.add("ce_wus", "compl_empty!(%s)" % wide("US", 8 if deep else 6), cost=20)
    for d in (False, True):
        x = k("US", n["US"], d)
        p.add("ce_" + tag(x), "compl_empty!(%s)" % x, cost=20)


def c04(p, deep):
    for a in RANGES + ["USF"]:
        p.add("e_" + tag(a), "empty_one!(%s)" % a)
    for a in SETS:
        for d in (False, True):
            x = k(a, 4 if deep else 3, d)
            p.add("e_" + tag(x), "empty_one!(%s)" % x, cost=10)
    pairs(p, "disjoint_pair", "d", sizes_thorough if deep else sizes_quick)
    wide_pairs(p, "disjoint_pair", "dw", deep)
    long_pairs(p, "disjoint_pair", "dn", deep)
    release_pairs(p, "disjoint_pair", "d")
    bounded = ["R", "RI", "BR", "ER", "BS"]
    pairs(p, "union_empty_pair", "ue", lambda a, b: [(2, 2)], kinds=bounded)


def c05(p, deep):
    n = 2 if deep else 1
    for a in RANGES + SETS + ["USF"]:
        for b in RANGES + SETS + ["USF"]:
            if a > b:
                continue
            na = nb = n
            if a == b == "BS":
                na = nb = 2
            x, y = k(a, na, False), k(b, nb, True)
            w = weight(a) * weight(b) * 4
            p.add("cu_" + tag(x, y), "commute_union!(%s, %s)" % (x, y), cost=w)
            p.add("ci_" + tag(x, y), "commute_inter!(%s, %s)" % (x, y), cost=w)
    for a in RANGES + ["USF"]:
        if a not in ("RFULL", "UR"):
            p.add("id_" + tag(a), "idem!(%s)" % a)
    for a in SETS:
        for d in (False, True):
            x = k(a, 3 if a == "BS" else 2, d)
            p.add("id_" + tag(x), "idem!(%s)" % x, cost=30)
    F = ["--fork-select"]
    wide_pairs(p, "commute_union", "cuw", deep)
    wide_pairs(p, "commute_inter", "ciw", deep)
    long_pairs(p, "commute_union", "cun", deep)
    long_pairs(p, "commute_inter", "cin", deep)
    for a in SETS:
        x = long(a, 17, 2, True)
        p.add("idn_" + tag(x), "idem!(%s)" % x, cost=5)
        p.add("id_r_" + tag(wide(a, 3)), "idem!(%s)" % wide(a, 3), modes=("rel",), flags=["--fork-select"], cost=5)
    for (a, b) in [("BR", "BR"), (wide("BS", 2), "BR"), (wide("LBS", 2), "BR"), (wide("UBS", 2), wide("BS", 2)), (wide("US", 1), "BR")]:
        p.add("cu_r_" + tag(a, b), "commute_union!(%s, %s)" % (a, b), modes=("rel",), flags=["--fork-select"], cost=5)
        p.add("ci_r_" + tag(a, b), "commute_inter!(%s, %s)" % (a, b), modes=("rel",), flags=["--fork-select"], cost=5)
    for a in SETS:
        for o in (0, 1, 2):
            x = wide(a, 8 if deep else 6, o)
            p.add("idw_" + tag(x), "idem!(%s)" % x, cost=30)
    q = 4 if deep else 3
    p.add("puw", "pieces_union!(%s, %s)" % (wide("BS", q, 0), wide("BS", q, 1)), cost=30)
    p.add("piw", "pieces_inter!(%s, %s)" % (wide("BS", 3, 0), wide("BS", q, 1)), cost=60)
    p.add("puw_br", "pieces_union!(%s, BR)" % wide("BS", 8 if deep else 6, 2), cost=30)
    p.add("piw_br", "pieces_inter!(%s, BR)" % wide("BS", 6 if deep else 5, 2), cost=30)
    for t in [(wide("BS", 4), "BR", "BR"), (wide("LBS", 3), "BR", "BR"), (wide("UBS", 3), "BR", "BR"), (wide("US", 2), "BR", "BR"),
              (wide("BS", 4), "LBR", "UBR"), ("BR", wide("BS", 4, 1), "LBR"), (wide("BS", 2), wide("BS", 2, 1), "BR")]:
        p.add("as_" + tag(*t), "assoc_union!(%s)" % ", ".join(t), cost=60)
        p.add("ai_" + tag(*t), "assoc_inter!(%s)" % ", ".join(t), flags=F, cost=60)
    tri = [("BR", "BR", "BR"), ("BR", "LBR", "BR"), ("BR", "UBR", "BR"), ("BR", "LBR", "UBR"), ("LBR", "BR", "LBR"),
           ("BS<1,false>", "BR", "BR"), ("BR", "BS<1,false>", "BR"), ("LBS<1,false>", "BR", "BR"), ("BR", "UBS<1,true>", "BR"),
           ("US<1,false>", "BR", "BR"), ("LBS<1,false>", "UBR", "BR"), ("BS<1,false>", "BS<1,true>", "BS<1,false>")]
    if deep:
        tri += [("BS<2,false>", "BR", "BR"), ("LBS<1,true>", "UBS<1,false>", "BR"), ("US<1,true>", "LBS<1,false>", "BR"),
                ("US<1,true>", "BS<1,false>", "BR"), ("BS<2,true>", "BS<1,false>", "BR")]
    for t in tri:
        p.add("as_" + tag(*t), "assoc_union!(%s)" % ", ".join(t), cost=60)
        p.add("ai_" + tag(*t), "assoc_inter!(%s)" % ", ".join(t), flags=F, cost=60)
    dis = [("BR", "BR", "BR"), ("BS<1,false>", "BR", "BR"), ("LBR", "BR", "UBR"), ("UBR", "LBR", "BS<1,false>"), ("R", "RI", "LBR")]
    for t in dis:
        p.add("ds_" + tag(*t), "distrib!(%s)" % ", ".join(t), cost=20)
    for t in [("BR", "BR", "BR"), ("LBR", "UBR", "BR")]:
        p.add("dt_" + tag(*t), "distrib2!(%s)" % ", ".join(t), cost=20)
    p.add("pu_2_2", "pieces_union!(BS<2,false>, BS<2,true>)", cost=100)
    p.add("pi_2_2", "pieces_inter!(BS<2,false>, BS<2,true>)", flags=F, cost=150)
    if deep:
        p.add("pu_3_2", "pieces_union!(BS<3,true>, BS<2,false>)", cost=900)
        p.add("pi_3_2", "pieces_inter!(BS<3,true>, BS<2,false>)", flags=F, cost=900)


BOTH = ("dev", "rel")
TYPES = INTS + ["char", "elem::My"]


def tn(t):
    return t.split(":")[-1].lower()


def forked(t):
    """Wide elements: one condition per path is easier on the solver than merged values."""
    return ["--fork-select"] if t in ("i128", "char") else []


def chosen(t, both):
    """(With debug assertions every char made is tested again, which the solver finds hard.)"""
    return ("rel",) if t == "char" else BOTH if both else ("dev",)


def c06(p, deep):
    for t in TYPES:
        l = 2 if deep or t in ("u8", "i8", "u32", "usize", "i32") else 1
        w = {"char": 30, "u128": 10, "i128": 10}.get(t, 5) * (5 if l == 2 else 1)
        p.add("rh_%s_%d" % (tn(t), l), "iter::range_history::<%s>(%d)" % (t, l), modes=BOTH if (t in ("u8", "i8", "u64", "i128", "char") or deep) else ("dev",), cost=w)
        p.add("ew_" + tn(t), "iter::empty_walk::<%s>()" % t)
    p.add("rh_u8_3", "iter::range_history::<u8>(3)", modes=BOTH if deep else ("dev",), cost=60)
    for t in ["u8", "i8", "char", "u64", "i128", "elem::My"]:
        p.add("rw_" + tn(t), "iter::range_walk::<%s>(%d)" % (t, 6 if deep else 3), modes=BOTH, cost=15)
    if deep:
        for t in TYPES[:6]:
            p.add("rh_%s_3" % tn(t), "iter::range_history::<%s>(3)" % t, cost=300)
        p.add("rh_u8_4", "iter::range_history::<u8>(4)", cost=500)


def c07(p, deep):
    q = [("u8", 2, False, 1), ("u8", 2, True, 1), ("i8", 2, False, 1), ("u64", 1, True, 1), ("elem::My", 1, True, 1), ("i64", 1, False, 1), ("u8", 1, False, 2), ("usize", 1, True, 1), ("char", 1, True, 1)]
    if deep:
        q += [("u64", 2, True, 1), ("u128", 1, False, 1), ("u8", 2, True, 2), ("u8", 3, True, 1), ("u8", 1, False, 3), ("i8", 2, True, 2), ("u128", 2, True, 1), ("char", 2, False, 1), ("i64", 2, True, 2), ("i128", 2, False, 1)]
        q += [(t, 2, False, 1) for t in TYPES]
    for (t, n, d, l) in q:
        p.add("sh_%s_%d%s_%d" % (tn(t), n, "d" if d else "a", l), "iter::set_history::<%s>(%d, %s, %d)" % (t, n, "true" if d else "false", l),
              flags=forked(t), modes=chosen(t, deep or t in ("u8",)), cost=4 ** (n + l) * {"char": 6, "u128": 8, "i128": 8}.get(t, 1))
    q = [("u8", 2, f % 2 == 1, f, 2) for f in range(4)] + [("u8", 3, f % 2 == 0, f, 2) for f in range(4)] + [("u8", 2, False, 0, 3), ("u8", 2, True, 1, 3), ("u64", 2, True, 1, 2), ("u64", 3, False, 2, 1),
         ("i8", 2, True, 3, 2), ("i64", 2, False, 0, 2), ("char", 2, True, 1, 1), ("char", 1, False, 0, 2), ("elem::My", 2, True, 1, 2), ("i128", 2, True, 1, 1), ("u128", 1, False, 0, 2), ("usize", 2, True, 0, 2), ("u16", 2, False, 2, 2)]
    if deep:
        q += [(t, 2, f % 2 == 1, f, 2) for t in TYPES for f in range(4)] + [("u8", 3, f % 2 == 0, f, 3) for f in range(4)] + [("u8", 4, f % 2 == 0, f, 2) for f in range(4)] + [("u8", 2, f % 2 == 0, f, 4) for f in range(2)]
    for (t, n, d, f, l) in q:
        p.add("wh_%s_%d%s%d_%d" % (tn(t), n, "d" if d else "a", f, l), "iter::wide_history::<%s>(%d, %s, %d, %d)" % (t, n, "true" if d else "false", f, l),
              flags=forked(t), modes=chosen(t, deep or (t, n, l) == ("u8", 3, 2)), cost=3 ** (n + l) * {"char": 6, "u128": 8, "i128": 8}.get(t, 1))
    for (n, d, l) in [(10, False, 1), (10, True, 1), (6, True, 2)] + ([(12, True, 2)] if deep else []):
        p.add("nh_%d%s_%d" % (n, "d" if d else "a", l), "iter::long_history(%d, %s, %d)" % (n, "true" if d else "false", l), flags=["--fork-select"], cost=200)
    for t in ["u8", "i8", "u16", "elem::My"]:  # (walks natively: not for wider types)
        for (n, f) in [(2, 1), (3, 0)]:
            p.add("sl_%s_%d" % (tn(t), n), "iter::set_last::<%s>(%d, %s, %d)" % (t, n, "true" if f else "false", f), modes=BOTH)
    for (t, n, d, m) in [("u8", 2, False, 3), ("u8", 2, True, 3), ("i32", 2, True, 2), ("char", 2, True, 2), ("u128", 1, False, 2)] + ([("u8", 3, False, 5), ("char", 2, True, 3), ("i128", 2, False, 3)] if deep else []):
        p.add("sw_%s_%d%s_%d" % (tn(t), n, "d" if d else "a", m), "iter::set_walk::<%s>(%d, %s, %d)" % (t, n, "true" if d else "false", m), modes=chosen(t, deep), cost=40)


def c08(p, deep):
    for t in TYPES:
        for m in BOTH:
            strict = "true" if m == "dev" or t in ("char", "elem::My") else "false"
            p.add("fh_%s_%s" % (tn(t), m), "iter::from_history::<%s>(%d, %s)" % (t, 3 if deep else 2, strict), modes=(m,), cost=4)
    q = [("u8", 2, True, 1), ("u8", 1, False, 2), ("i8", 1, True, 1), ("u64", 1, False, 1), ("char", 1, True, 1), ("i128", 1, False, 1)]
    if deep:
        q += [("u8", 2, False, 2), ("i64", 2, True, 1), ("u8", 3, True, 1), ("char", 2, False, 1), ("u128", 2, True, 1)] + [(t, 1, True, 2) for t in TYPES]
    for (t, n, d, l) in q:
        p.add("lh_%s_%d%s_%d" % (tn(t), n, "d" if d else "a", l), "iter::lower_set_history::<%s>(%d, %s, %d)" % (t, n, "true" if d else "false", l),
              flags=forked(t), modes=chosen(t, deep or t == "u8"), cost=4 ** (n + l) * {"char": 6, "u128": 8, "i128": 8}.get(t, 1))
    for (n, d, l) in [(10, False, 1), (10, True, 1), (6, True, 2)] + ([(12, True, 2)] if deep else []):
        p.add("nl_%d%s_%d" % (n, "d" if d else "a", l), "iter::long_lower_history(%d, %s, %d)" % (n, "true" if d else "false", l), flags=["--fork-select"], cost=200)
    q = [("u8", 2, f % 2 == 0, f, 2) for f in range(4)] + [("u8", 2, True, 0, 3), ("u8", 2, False, 3, 3), ("u8", 3, True, 1, 2), ("u8", 3, False, 0, 2), ("u64", 2, True, 1, 2), ("i8", 2, False, 0, 2), ("i64", 2, True, 2, 2),
         ("char", 1, True, 1, 2), ("char", 2, False, 0, 1), ("elem::My", 2, True, 1, 2), ("i128", 2, False, 0, 1), ("u128", 1, True, 1, 2), ("usize", 2, False, 1, 2)]
    if deep:
        q += [(t, 2, f % 2 == 1, f, 3) for t in TYPES for f in range(4)] + [("u8", 4, f % 2 == 0, f, 2) for f in range(4)] + [("u8", 3, f % 2 == 0, f, 4) for f in range(4)]
    for (t, n, d, f, l) in q:
        p.add("wl_%s_%d%s%d_%d" % (tn(t), n, "d" if d else "a", f, l), "iter::wide_lower_history::<%s>(%d, %s, %d, %d)" % (t, n, "true" if d else "false", f, l),
              flags=forked(t), modes=chosen(t, deep or (t, n, l) == ("u8", 2, 2)), cost=3 ** (n + l) * {"char": 6, "u128": 8, "i128": 8}.get(t, 1))


def c09(p, deep):
    for t in TYPES:
        for m in BOTH:
            strict = "true" if m == "dev" or t in ("char", "elem::My") else "false"
            p.add("sl_%s_%s" % (tn(t), m), "elem::step_laws::<%s>(%s)" % (t, strict), modes=(m,), cost=3)


def c10(p, deep):
    for t in TYPES:
        p.add("ic_" + tn(t), "conv::into_crate::<%s>()" % t, modes=BOTH, cost=3)
        p.add("is_" + tn(t), "conv::into_std::<%s>()" % t, modes=BOTH, cost=5)
        if t != "elem::My":
            p.add("us_" + tn(t), "conv::used::<%s>()" % t, modes=BOTH, cost=5)


def c11(p, deep):
    own = [("b", "BoundedRange<usize>"), ("l", "LowerBoundedRange<usize>"), ("u", "UpperBoundedRange<usize>"), ("f", "UnboundedRange"), ("e", "EmptyRange<usize>")]
    for (s, t) in own:
        p.add("seq_" + s, "index::seq::<%s>()" % t, modes=BOTH, cost=3)
        p.add("txt_" + s, "index::txt::<%s>()" % t, modes=BOTH, cost=4)
        if s != "e":
            p.add("seqm_" + s, "index::seq_mut::<%s>()" % t, modes=BOTH, cost=4)
            p.add("txtm_" + s, "index::txt_mut::<%s>()" % t, modes=BOTH, cost=5)
    p.add("cstr", "index::cstr()", modes=BOTH)
    p.add("whole", "index::whole()", modes=BOTH)


def c12(p, deep):
    for t in TYPES:
        p.add("bo_" + tn(t), "conv::bound_order::<%s>()" % t, modes=BOTH, cost=5)
        if deep or t in ("u8", "i64", "char", "i128"):
            p.add("bt_" + tn(t), "conv::bound_trans::<%s>()" % t, cost=3)
    p.add("bp", "conv::bound_partial()")


def c13(p, deep):
    for a in ["BR", "LBR", "UBR"]:
        p.add("ep_" + a.lower(), "eq_pair!(%s)" % a, modes=BOTH)
        p.add("eb_" + a.lower(), "eq_built!(%s, %s, 1)" % (a, a))
    n = dict(BS=3, LBS=2, UBS=2, US=2) if not deep else dict(BS=4, LBS=3, UBS=3, US=3)
    for a in SETS:
        for d in (False, True):
            x = k(a, (n[a] - 1) if not deep else n[a], d)
            p.add("ep_" + tag(x), "eq_pair!(%s)" % x, cost=30)
        x, y = k(a, n[a], False), k(a, n[a], True)
        p.add("eb_" + tag(x), "eq_built!(%s, %s, %d)" % (x, y, n[a]), modes=BOTH, cost=10)
        x = wide(a, 5 if deep else 4, 2)
        p.add("epw_" + tag(x), "eq_pair!(%s)" % x, cost=30)
    p.add("ebounds", "eqhash::eq_bounds()")
    p.add("eunits", "eqhash::eq_units()")


def c14(p, deep):
    for a in ["BR", "LBR", "UBR", "USF"]:
        p.add("t_" + a.lower(), "trip_one!(%s)" % a, modes=BOTH)
    n = dict(BS=3, LBS=2, UBS=2, US=2) if not deep else dict(BS=5, LBS=4, UBS=4, US=4)
    for a in SETS:
        for d in (False, True):
            x = k(a, n[a], d)
            p.add("t_" + tag(x), "trip_one!(%s)" % x, cost=10)
        x = k(a, 2 if a == "BS" or deep else 1, True)
        p.add("to_" + tag(x), "trip_op!(%s, BR)" % x, cost=20)
        for o in (0, 1, 2):
            x = wide(a, 8 if deep else 6, o)
            p.add("tw_" + tag(x), "trip_one!(%s)" % x, modes=BOTH if o == 0 else ("dev",), cost=10)
        x = long(a, 18, 2, True)
        p.add("tn_" + tag(x), "trip_one!(%s)" % x, flags=["--fork-select"], cost=10)
    p.add("t_bounds", "rt::trip_bounds()")


def c15(p, deep):
    A = ["BR", "LBR", "UBR", "BS<1,false>", "LBS<1,false>", "UBS<1,true>", "US<1,true>"]
    for o1 in "ui":
        for o2 in "ui":
            for a in A:
                for b in (["BR"] if not deep else ["BR", "LBR", "UBR"]):
                    for c in ["BR", "LBR", "UBR"]:
                        p.add("x%s%s_%s" % (o1, o2, tag(a, b, c)), "chain3!(%s, %s, %s, %s, %s)" % (o1, o2, a, b, c), cost=weight(a.split("<")[0]) * 4)
            for (a, b, c) in [("BR", "BR", "BR"), ("BS<1,false>", "BR", "BR"), ("LBR", "UBR", "BR"), ("BR", "LBR", "BS<1,true>"), ("BR", "BR", "LBR")]:
                p.add("n%s%s_%s" % (o1, o2, tag(a, b, c)), "chain3n!(%s, %s, %s, %s, %s)" % (o1, o2, a, b, c), flags=["--fork-select"], cost=10)
            for o3 in "ui":
                for (a, b, c, d) in [("BR", "BR", "BR", "BR"), ("BR", "LBR", "UBR", "BR")]:
                    p.add("y%s%s%s_%s" % (o1, o2, o3, tag(a, b, c, d)), "chain4!(%s, %s, %s, %s, %s, %s, %s)" % (o1, o2, o3, a, b, c, d), cost=40)
    for o1 in "ui":
        for o2 in "ui":
            for a in SETS:
                for (b, c) in [("BR", "BR"), ("LBR", "BR"), ("BR", "UBR")]:
                    x = wide(a, 3 if not deep else 4, 2)
                    p.add("x%s%s_%s" % (o1, o2, tag(x, b, c)), "chain3!(%s, %s, %s, %s, %s)" % (o1, o2, x, b, c), cost=40)
                    p.add("n%s%s_%s" % (o1, o2, tag(x, b, c)), "chain3n!(%s, %s, %s, %s, %s)" % (o1, o2, x, b, c), flags=["--fork-select"], cost=40)
                    if (b, c) == ("LBR", "BR"):
                        x = wide(a, 2, 0)
                        p.add("r%s%s_%s" % (o1, o2, tag(x, b, c)), "chain3!(%s, %s, %s, %s, %s)" % (o1, o2, x, b, c), modes=("rel",), flags=["--fork-select"], cost=10)
            x, y, z = wide("BS", 2), wide("BS", 2, 1), wide("BS", 2, 0)
            p.add("x%s%s_wbs3" % (o1, o2), "chain3!(%s, %s, %s, %s, %s)" % (o1, o2, x, y, z), cost=60)
    p.add("prog_b", "prog_bounded!(%d)" % (4 if deep else 3), cost=200)
    p.add("prog_u", "prog_unbounded!(%d)" % (3 if deep else 2), cost=100)
    p.add("prog_l", "prog_lower!(%d)" % (3 if deep else 2), cost=100)
    p.add("prog_h", "prog_upper!(%d)" % (3 if deep else 2), cost=100)


def c16(p, deep):
    F = ["--fork-select"]
    S = F + ["--easy", "10000"]
    p.add("iu_br_br", "iter_union!(BR, BR)", flags=F, cost=150)
    p.add("ii_br_br", "iter_inter!(BR, BR)", flags=F, cost=20)
    p.add("ii_bs1_br", "iter_inter!(BS<1,false>, BR)", flags=F, cost=30)
    m = 6 if deep else 5
    bs = 2
    n1, n2, n3 = (10, 4, 3) if deep else (8, 3, 2)
    for (a, b) in [(wide("BS", n2), "BR"), ("BR", wide("BS", n2, 1)), ("R", wide("BS", n2, 2)), (wide("BS", n2), "RI"), (wide("BS", n3), wide("BS", 2, 1))]:
        p.add("auw_" + tag(a, b), "all_union!(%d, %s, %s)" % (n1, a, b), flags=S, cost=250)
    for (a, b) in [(wide("BS", n2), "BR"), ("BR", wide("BS", n2, 1)), (wide("BS", n3), wide("BS", n3, 1)), (wide("LBS", n3), "BR"), ("BR", wide("UBS", n3, 1)), (wide("US", 2), "BR"),
                   (wide("US", 2), wide("BS", 2, 1)), (wide("LBS", 2), wide("UBS", 2, 1)), (wide("LBS", 2), wide("BS", 2, 1)), (wide("UBS", 2, 1), wide("BS", 2))]:
        p.add("aiw_" + tag(a, b), "all_inter!(%d, %s, %s)" % (n1 if deep else 7, a, b), flags=S, cost=100)
    for (op, a, b) in [("all_union", wide("BS", 2), "BR"), ("all_inter", wide("BS", 2), "BR"), ("all_inter", wide("LBS", 2), wide("UBS", 2, 1))]:
        p.add("r_%s_%s" % (op, tag(a, b)), "%s!(6, %s, %s)" % (op, a, b), modes=("rel",), flags=S, cost=40)
    for (op, a, b) in [("prefix_union", wide("LBS", 2), "BR"), ("prefix_inter", wide("US", 1), "LBR")]:
        p.add("r_%s_%s" % (op, tag(a, b)), "%s!(6, 7, %s, %s)" % (op, a, b), modes=("rel",), flags=S, cost=40)
    p.add("acw", "all_compl!(%d, %s)" % (n1 + 2, wide("US", 4)), flags=S, cost=20)
    for (a, b) in [(wide("LBS", n2), "BR"), ("BR", wide("LBS", n2, 1)), (wide("LBS", n2, 1), "LBR"), (wide("LBS", 2), wide("LBS", 2, 1)), (wide("BS", n2), "LBR"), (wide("BS", 2), wide("LBS", 2, 1)), ("LBR", wide("BS", n2, 1))]:
        p.add("puw_" + tag(a, b), "prefix_union!(%d, %d, %s, %s)" % (n1, n1 + 1, a, b), flags=S, cost=80)
    for (a, b) in [(wide("LBS", n2), "LBR"), (wide("LBS", 2), wide("LBS", 2, 1)), (wide("US", 2), wide("LBS", 2, 1)), (wide("US", 3), "LBR"), (wide("LBS", 2), wide("US", 2, 1))]:
        p.add("piw_" + tag(a, b), "prefix_inter!(%d, %d, %s, %s)" % (n1, n1 + 1, a, b), flags=S, cost=80)
    p.add("pcw", "prefix_compl!(%d, %d, %s)" % (n1, n1 + 1, wide("UBS", n2)), flags=S, cost=20)
    for (a, b) in [("BS<%d,false>" % bs, "BR"), ("BR", "BS<%d,true>" % bs), ("BS<1,false>", "BS<1,true>"), ("R", "RI")] + ([("BS<2,false>", "BS<1,true>")] if deep else []):
        p.add("au_" + tag(a, b), "all_union!(%d, %s, %s)" % (m, a, b), flags=S, cost=150)
    for (a, b) in [("BS<2,false>", "BR"), ("LBS<1,false>", "UBR"), ("LBR", "UBS<1,true>"), ("LBS<1,false>", "BR"), ("UBS<1,true>", "BR"), ("US<1,false>", "BR"), ("BR", "US<1,true>"),
                   ("UBR", "LBS<1,true>"), ("BS<1,true>", "LBR"), ("UBR", "BS<1,true>"), ("US<1,false>", "BS<1,true>"), ("BS<1,false>", "BS<1,true>")] + (
                       [("BS<2,false>", "BS<2,true>"), ("LBS<1,false>", "UBS<1,true>"), ("US<1,false>", "BS<2,true>")] if deep else []):
        p.add("ai_" + tag(a, b), "all_inter!(%d, %s, %s)" % (m if deep else 4, a, b), flags=S, cost=60)
    p.add("ac_us", "all_compl!(%d, US<%d,false>)" % (m, 2), flags=S, cost=60)
    p.add("ac_us_d", "all_compl!(%d, US<%d,true>)" % (m, 2), flags=S, cost=60)
    q = (5, 6) if deep else (4, 5)
    for (a, b) in [("LBS<1,false>", "BR"), ("LBR", "BS<2,true>"), ("BS<2,false>", "LBR"), ("BR", "LBS<1,true>"), ("LBS<1,false>", "LBS<1,true>"), ("LBS<1,true>", "BS<1,false>"), ("RF", "R")]:
        p.add("pu_" + tag(a, b), "prefix_union!(%d, %d, %s, %s)" % (q + (a, b)), flags=S, cost=30)
    for (a, b) in [("LBS<1,false>", "LBR"), ("LBS<1,false>", "LBS<1,true>"), ("US<1,false>", "LBR"), ("LBR", "US<1,true>"), ("RF", "LBS<1,true>")]:
        p.add("pi_" + tag(a, b), "prefix_inter!(%d, %d, %s, %s)" % (q + (a, b)), flags=S, cost=30)
    for a in ["UBS<2,true>", "UBS<2,false>", "UBR", "RT", "RTI"]:
        p.add("pc_" + tag(a), "prefix_compl!(%d, %d, %s)" % (q + (a,)), flags=S, cost=20)


def c17(p, deep):
    F = ["--fork-select"]
    own = ["BR", "LBR", "UBR", "R", "RI", "RF", "RT", "RTI"]
    for a in own + ["USF"]:
        p.add("k_" + tag(a), "canon_one!(%s)" % a)
        p.add("kc_" + tag(a), "canon_compl!(%s)" % a)
    for a in SETS:
        for o in (0, 1, 2):
            x = wide(a, 8 if deep else 6, o)
            p.add("k_" + tag(x), "canon_one!(%s)" % x, cost=10)
            p.add("kc_" + tag(x), "canon_compl!(%s)" % x, flags=F, cost=10)
        for d in (False, True):
            x = k(a, 3 if deep else 2, d)
            p.add("k_" + tag(x), "canon_one!(%s)" % x, cost=10)
            p.add("kc_" + tag(x), "canon_compl!(%s)" % x, flags=F, cost=10)
    for (m, s) in (("canon_union", "ku"), ("canon_inter", "ki")):
        pairs(p, m, s, lambda a, b: [(2 if deep else 1, 2 if deep else 1)], kinds=own + SETS)
        wide_pairs(p, m, s + "w", deep)
        long_pairs(p, m, s + "n", deep)
        for a in SETS:
            x, y = long(a, 3, 0, True), long("US", 2, 1)
            for (x, y) in [(x, y), (y, x), (x, long("BS", 2, 1)), (x, "BR")]:
                p.add("%sr_%s" % (s, tag(x, y)), "%s!(%s, %s)" % (m, x, y), modes=("rel",), flags=F, cost=5)
    for o1 in "ui":
        for o2 in "ui":
            for (a, b, c) in [("BR", "BR", "BR"), ("BR", "LBR", "BR"), ("UBR", "LBR", "BR"), (wide("BS", 3), "BR", "BR"), (wide("LBS", 2), "BR", "BR"), (wide("UBS", 2, 1), "BR", "BR"), (wide("US", 2), "BR", "BR"),
                              (wide("BS", 3), "LBR", "BR"), (wide("US", 2), "LBR", "BR"), (wide("BS", 2), wide("BS", 2, 1), "BR")]:
                p.add("kx%s%s_%s" % (o1, o2, tag(a, b, c)), "canon_chain!(%s, %s, %s, %s, %s)" % (o1, o2, a, b, c), cost=40)
                p.add("kn%s%s_%s" % (o1, o2, tag(a, b, c)), "canon_chain_n!(%s, %s, %s, %s, %s)" % (o1, o2, a, b, c), flags=F, cost=40)


PROPS = {
    "C01": dict(fn=c01, shards=4),
    "C02": dict(fn=c02, shards=4),
    "C03": dict(fn=c03, shards=1),
    "C04": dict(fn=c04, shards=4),
    "C05": dict(fn=c05, shards=4),
    "C06": dict(fn=c06, shards=2),
    "C07": dict(fn=c07, shards=1),
    "C08": dict(fn=c08, shards=2),
    "C09": dict(fn=c09, shards=1),
    "C10": dict(fn=c10, shards=1),
    "C11": dict(fn=c11, shards=1),
    "C12": dict(fn=c12, shards=1),
    "C13": dict(fn=c13, shards=1),
    "C14": dict(fn=c14, shards=1, serde=True),
    "C15": dict(fn=c15, shards=4),
    "C16": dict(fn=c16, shards=2),
    "C17": dict(fn=c17, shards=6, serde=True),
}


def plan(prop, tier):
    p = Plan()
    PROPS[prop]["fn"](p, tier == "thorough")
    return p.items
