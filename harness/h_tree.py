"""Half-open intervals and the interval tree."""
PROPS = ("C36", "C37", "C38")
PRELOAD = ("neural_graph_composer.interval",)

from symex.api import harness
from harness.common import *  # noqa

OPTS = dict(hash_constants=())


def iv(sx, n, lo=0, hi=7, null=False, data=None):
    from neural_graph_composer.interval import FloatInterval
    lo, hi = lo * 100, hi * 100
    b, e = sx.int(n + ".b", lo, hi) * 0.25, sx.int(n + ".e", lo, hi) * 0.25
    if not null:
        sx.assume(b < e)
    return FloatInterval(b, e, data)


def fields(x):
    return (x.begin, x.end, x.data)


# ------------------------------------------------------------------ C36 intervals
@harness("C36", "two intervals with bounds m/4 in [-50,150], empty ones included; one point", **OPTS)
def interval_queries(sx):
    a, b, p = iv(sx, "a", -2, 6, True), iv(sx, "b", -2, 6, True), sx.int("p", -300, 700) * 0.25
    over = sx.and_(b.begin < a.end, b.end > a.begin)
    sx.check(sx.iff(a.overlaps(b), over), "overlap of an interval")
    sx.check(sx.iff(a.overlaps(b.begin, b.end), over), "overlap of a range")
    inside = sx.and_(a.begin <= p, p < a.end)
    sx.check(sx.iff(a.overlaps(p), inside), "overlap of a point")
    sx.check(sx.iff(a.contains_point(p), inside), "contains its points, not its end")
    sx.check(sx.iff(a.contains_interval(b), sx.and_(a.begin <= b.begin, b.end <= a.end)), "contains intervals")
    sx.check(sx.iff(a.is_null(), a.begin >= a.end), "null iff empty")
    sx.check(a.length() == sx.max(0, a.end - a.begin), "length")
    size = sx.ite(over, sx.min(a.end, b.end) - sx.max(a.begin, b.begin), 0)
    sx.check(sx.and_(a.overlap_size(b) == size, a.overlap_size(b.begin, b.end) == size), "overlap size")
    sx.check(sx.iff(a.range_matches(b), sx.and_(a.begin == b.begin, a.end == b.end)), "same range")


@harness("C36", "two non-empty intervals with bounds m/4 in [-50,150]; one point", **OPTS)
def interval_distance(sx):
    a, b, p = iv(sx, "a", -2, 6), iv(sx, "b", -2, 6), sx.int("p", -300, 700) * 0.25
    gap = sx.max(0, b.begin - a.end, a.begin - b.end)
    sx.check(sx.and_(a.distance_to(b) == gap, b.distance_to(a) == gap), "gap between intervals, 0 if they touch")
    sx.check(a.distance_to(p) == sx.max(0, p - a.end, a.begin - p), "gap to a point")


@harness("C36", "two intervals with bounds m/4 in [-50,150], empty ones included; one point",
         params=[{"other": o} for o in ("interval", "point")], **OPTS)
def interval_sides(sx, other):
    a = iv(sx, "a", -2, 6, True)
    if other == "interval":
        o = iv(sx, "b", -2, 6, True)
        lo, hi, null = o.begin, o.end, sx.or_(a.begin >= a.end, o.begin >= o.end)
        want = {"lt": a.end <= lo, "le": a.end <= hi, "gt": a.begin >= hi, "ge": a.begin >= lo}
    else:
        o = sx.int("p", -300, 700) * 0.25
        null = a.begin >= a.end
        want = {"lt": a.end <= o, "le": a.end <= o, "gt": a.begin > o, "ge": a.begin >= o}
    for k, w in want.items():
        r, exc = sx.attempt(lambda: getattr(a, k)(o), ValueError)
        sx.check(sx.iff(exc is not None, null), k + ": refused iff one is empty")
        if exc is None:
            sx.check(sx.iff(r, w), k)


@harness("C36", "three intervals with bounds m/4 in [0,75]; data of numbers, texts and none",
         params=[{"data": d} for d in ((None, None, None), (1, 2, 1), ("x", None, 2), ("a", "b", None))], **OPTS)
def interval_order(sx, data):
    from neural_graph_composer.interval import FloatInterval
    xs = [iv(sx, n, 0, 3, True, d) for n, d in zip("abc", data)]
    a, b, c = xs

    def rank(d, e):
        if type(d) is type(e):
            return (d > e) - (d < e) if d is not None else 0
        x, y = type(d).__name__, type(e).__name__
        return (x > y) - (x < y)
    r = rank(a.data, b.data)
    less = sx.or_(a.begin < b.begin, sx.and_(a.begin == b.begin, sx.or_(
        a.end < b.end, sx.and_(a.end == b.end, r < 0))))
    sx.check(sx.iff(a < b, less), "by begin, end, data")
    same = sx.and_(a.begin == b.begin, a.end == b.end, a.data == b.data)
    sx.check(sx.iff(a == b, same), "equal iff bounds and data are")
    sx.check(sx.implies(sx.and_(a.begin == b.begin, a.end == b.end), len({hash(a), hash(b)}) == 1), "hash")
    s = sorted(xs)
    for x, y in zip(s, s[1:]):
        sx.check(sx.or_(x.begin < y.begin, sx.and_(x.begin == y.begin, x.end <= y.end)), "sorting")
    k = a.copy()
    sx.check(type(k) is FloatInterval and k == a and k.data is a.data, "copy")
    f, args = a.__reduce__()
    sx.check(f(*args) == a, "pickled and read back")


# ------------------------------------------------------------------ C37 queries, C38 edits
def build(sx, n, how, data="distinct", hi=7, cut=None):
    """-> (tree, [(begin, end, data)]) of n intervals sorted by their bounds (no loss: a set has no
    order).  `how`: all at once, from tuples, or added one by one in the order of a digit string.
    `cut` (a string over the gaps between neighbours) only divides the work."""
    from neural_graph_composer.interval import FloatIntervalTree
    xs = [iv(sx, f"i{k}", 0, hi, data=None if data == "none" else k) for k in range(n)]
    for x, y in zip(xs, xs[1:]):
        sx.assume(sx.or_(x.begin < y.begin, sx.and_(x.begin == y.begin, x.end <= y.end)))
    for c, x, y in zip(cut or "", xs, xs[1:]):
        sx.assume(y.begin < x.end if c == "o" else y.begin >= x.end)
    if how == "init":
        t = FloatIntervalTree(xs)
    elif how == "tuples":
        t = FloatIntervalTree.from_tuples([fields(x) for x in xs])
    else:
        t = FloatIntervalTree()
        for k in how[:n]:
            t.addi(*fields(xs[int(k)]))
    return t, [fields(x) for x in xs]


def same_set(sx, got, want, what):
    """the set `got` of intervals is exactly {w : cond} for (w, cond) in want"""
    got = [fields(x) for x in got]
    for w, cond in want:
        sx.check(sx.iff(sx.member(w, got), sx.or_(cond, sx.any_(sx.and_(c, sx.tup_eq(w, v)) for v, c in want))), what)
    for g in got:
        sx.check(sx.any_(sx.and_(c, sx.tup_eq(g, w)) for w, c in want), what + ": nothing else")
    for i, g in enumerate(got):
        sx.check(sx.not_(sx.member(g, got[:i])), what + ": no duplicates")


def sound(sx, t, want, what):
    """the tree holds exactly `want` (conditional) and its own structure is intact"""
    same_set(sx, t, want, what)
    _, exc = sx.attempt(lambda: t.verify(), AssertionError, KeyError, TypeError)
    sx.check(exc is None, what + ": structure")


def all_of(model):
    return [(m, True) for m in model]


def distinct_count(sx, model):
    return sx.count(sx.not_(sx.member(m, model[:i])) for i, m in enumerate(model))


ORDERS = ("012", "021", "102", "120", "201", "210")
QUICK = [{"n": 3, "how": h, "data": "none"} for h in ("init", "012", "210", "120")] + [
    {"n": 3, "how": "init", "data": "distinct"}] + [
    {"n": n, "how": h, "data": d} for n in (1, 2) for h in ("init", "01", "tuples") for d in ("none", "distinct")]
DEEP = QUICK + [{"n": 3, "how": h, "data": "none"} for h in ORDERS if h not in ("012", "210", "120")] + [
    {"n": 4, "how": h, "data": "none", "cut": x + y + z} for h in ("init", "0123", "3210", "1302")
    for x in "oa" for y in "oa" for z in "oa"]


@harness("C37", "1-3 (thorough 4) intervals, bounds m/4 in [0,175], built at once or one by one; any point m/4 in [-25,200]",
         params=QUICK, thorough=DEEP, **OPTS)
def tree_points(sx, n, how, data, cut=None):
    t, m = build(sx, n, how, data, cut=cut)
    p = sx.int("p", -100, 800) * 0.25
    same_set(sx, t.at(p), [(w, sx.and_(w[0] <= p, p < w[1])) for w in m], "at a point")
    sx.check(sx.iff(t.overlaps(p), sx.any_(sx.and_(w[0] <= p, p < w[1]) for w in m)), "a point is covered")


@harness("C37", "1-3 intervals, bounds m/4 in [0,175], built at once or one by one; any range m/4 in [-25,200]", params=[
    {"n": n, "how": h, "kind": k, "cut": c} for n, h, c in ((1, "init", ""), (2, "init", ""), (2, "10", ""), (3, "init", "oo"),
    (3, "init", "oa"), (3, "init", "ao"), (3, "init", "aa")) for k in ("overlap", "overlaps", "envelop")], thorough=[
    {"n": n, "how": h, "kind": k, "cut": c} for n, h, c in [(1, "init", ""), (2, "init", ""), (2, "10", "")] +
    [(3, o, x + y) for o in ("init",) + ORDERS for x in "oa" for y in "oa"]
    for k in ("overlap", "overlaps", "envelop")], **OPTS)
def tree_ranges(sx, n, how, kind, cut):
    from neural_graph_composer.interval import FloatInterval
    t, m = build(sx, n, how, "none", cut=cut)
    p, q = sx.int("p", -100, 800) * 0.25, sx.int("q", -100, 800) * 0.25
    hit = [(w, sx.and_(p < q, w[0] < q, w[1] > p)) for w in m]
    if kind == "overlap":
        same_set(sx, t.overlap(p, q), hit, "overlapping a range")
    elif kind == "overlaps":
        sx.check(sx.iff(t.overlaps(p, q), sx.any_(c for _, c in hit)), "a range is covered")
        sx.check(sx.iff(t.overlaps(FloatInterval(p, q)), sx.any_(c for _, c in hit)), "an interval is covered")
    else:
        same_set(sx, t.envelop(FloatInterval(p, q)), [(w, sx.and_(p < q, w[0] >= p, w[1] <= q)) for w in m],
                 "inside a range")


@harness("C37", "1-3 (thorough 4) intervals, bounds m/4 in [0,175], built at once or one by one", params=QUICK, thorough=DEEP,
         **OPTS)
def tree_contents(sx, n, how, data, cut=None):
    t, m = build(sx, n, how, data, cut=cut)
    sound(sx, t, all_of(m), "built")
    sx.check(len(t) == distinct_count(sx, m), "count")
    sx.check(not t.is_empty(), "empty")
    lo, hi = sx.min([w[0] for w in m]), sx.max([w[1] for w in m])
    sx.check(sx.and_(t.begin() == lo, t.end() == hi, t.span() == hi - lo), "bounds")
    r = t.range()
    sx.check(sx.and_(r.begin == lo, r.end == hi), "range")


@harness("C37", "0-2 (thorough 3) intervals, bounds m/4 in [0,175]; any other interval", params=[{"n": n} for n in (0, 1, 2)],
         thorough=[{"n": n} for n in (0, 1, 2, 3)], **OPTS)
def tree_membership(sx, n):
    t, m = build(sx, n, "init", "none")
    sx.check(bool(t.is_empty()) == (n == 0), "empty")
    x = iv(sx, "x")
    sx.check(sx.iff(x in t, sx.member(fields(x), m)), "membership")
    sx.check(sx.iff(t.containsi(*fields(x)), sx.member(fields(x), m)), "membership of bounds")
    c = t.copy()
    sx.check(c == t and c is not t, "a copy is equal")
    c.add(x)
    sound(sx, t, all_of(m), "copy edited")
    sx.check(sx.iff(c == t, sx.member(fields(x), m)), "equal iff the intervals are")


@harness("C37", "1-2 (thorough 3) intervals, slices with open and closed ends", params=[{"n": n} for n in (1, 2)],
         thorough=[{"n": n} for n in (1, 2, 3)], **OPTS)
def tree_indexing(sx, n):
    t, m = build(sx, n, "init", "none")
    p, q = sx.int("p", -100, 800) * 0.25, sx.int("q", -100, 800) * 0.25
    same_set(sx, t[p], [(w, sx.and_(w[0] <= p, p < w[1])) for w in m], "[p]")
    same_set(sx, t[p:q], [(w, sx.and_(p < q, w[0] < q, w[1] > p)) for w in m], "[p:q]")
    same_set(sx, t[:], all_of(m), "[:]")
    if m:
        lo, hi = sx.min([w[0] for w in m]), sx.max([w[1] for w in m])
        same_set(sx, t[:q], [(w, sx.and_(lo < q, w[0] < q)) for w in m], "[:q]")
        same_set(sx, t[p:], [(w, sx.and_(p < hi, w[1] > p)) for w in m], "[p:]")


@harness("C37", "2-3 intervals, bounds m/4 in [0,125], distinct or no data", params=[
    {"n": n, "data": d} for n in (2, 3) for d in ("distinct", "none")], **OPTS)
def tree_nested(sx, n, data):
    t, m = build(sx, n, "init", data, hi=5)
    r = t.find_nested()
    pairs = [(fields(p), fields(c)) for p, cs in r.items() for c in cs]
    for i, a in enumerate(m):
        for j, b in enumerate(m):
            if i == j:
                continue
            inside = sx.and_(a[0] <= b[0], b[1] <= a[1], sx.not_(sx.and_(a[0] == b[0], a[1] == b[1])))
            got = sx.any_(sx.and_(sx.tup_eq(a, x), sx.tup_eq(b, y)) for x, y in pairs)
            sx.check(sx.implies(inside, got), "every nested interval is found under its parent")
    for x, y in pairs:
        sx.check(sx.and_(x[0] <= y[0], y[1] <= x[1], sx.not_(sx.tup_eq(x, y))), "nothing else is found")
        sx.check(sx.and_(sx.member(x, m), sx.member(y, m)), "they are in the tree")


@harness("C38", "1-3 intervals, bounds m/4 in [0,175] (to 125 in threes); one of them or another one removed or discarded, added again",
         params=[{"n": n, "op": o, "how": h} for o in ("remove", "discard", "removei", "discardi")
                 for n, h in ((1, "init"), (2, "init"), (2, "01"))] +
                [{"n": 3, "op": o, "how": "init"} for o in ("removei", "discardi")],
         thorough=[{"n": n, "op": o, "how": h} for o in ("remove", "discard", "removei", "discardi")
                   for n, h in [(1, "init"), (2, "init"), (2, "01")] + [(3, h) for h in ("init",) + ORDERS]], **OPTS)
def tree_removal(sx, n, op, how):
    t, m = build(sx, n, how, "none", hi=5 if n > 2 else 7)
    x = iv(sx, "x", hi=5 if n > 2 else 7)
    arg = fields(x) if op.endswith("i") else (x,)
    inside = sx.member(fields(x), m)
    r, exc = sx.attempt(lambda: (getattr(t, op)(*arg), 1)[1], ValueError)
    if op.startswith("remove"):
        sx.check(sx.iff(exc is None, inside), "removing refuses what is not there")
    else:
        sx.check(exc is None, "discarding never fails")
    sound(sx, t, [(w, sx.not_(sx.tup_eq(w, fields(x)))) for w in m], op)
    if n < 3:
        t.add(x)
        sound(sx, t, all_of(m + [fields(x)]), "added again")


EMPTY_ORDERS = [(h, k) for h in ("init", "012", "210") for k in ORDERS]


@harness("C38", "three intervals (thorough four) removed one after another in each order; bounds m/4 in [0,175]", params=[
    {"how": h, "out": k} for h, k in EMPTY_ORDERS], thorough=[{"how": h, "out": k} for h, k in EMPTY_ORDERS] + [
    {"how": h, "out": k, "cut": x + y + z} for h, k in (("init", "1023"), ("init", "2130"), ("0123", "1203"),
                                                       ("3210", "2103"), ("1302", "0123"))
    for x in "oa" for y in "oa" for z in "oa"], **OPTS)
def tree_emptied(sx, how, out, cut=None):
    t, m = build(sx, len(out), how, "distinct", cut=cut)
    left = list(range(len(out)))
    for c in out:
        left.remove(int(c))
        t.removei(*m[int(c)])
        if len(left) > 1 or len(out) == 3:
            sound(sx, t, [(m[j], True) for j in left], "one removed")
    sx.check(bool(t.is_empty()) and len(t) == 0 and t.begin() == 0, "emptied")


# seven intervals apart, each overlapping the next, one around each other, and a ladder
SHAPES = {"apart": [(k, k + 0.5) for k in range(7)], "chain": [(k, k + 1.5) for k in range(7)],
          "nested": [(k, 13 - k) for k in range(7)], "fan": [(0, 1), (1, 9), (2, 3), (3, 7), (4, 5), (5, 6), (6, 8)]}
PUTS = {"init": None, "up": "0123456", "down": "6543210", "zigzag": "0615243", "inward": "3152604", "pairs": "1032546"}


class Known(float):
    """a known bound that meets unknown ones in tables: hashed like them, told apart by comparison"""
    __slots__ = ()

    def __hash__(self):
        return 0x5A5A5A


def big(sx, shape, put, at, size=None):
    """-> (tree, model): the seven intervals of a shape, entered in a fixed order, and any interval
    entered before, amid or after them"""
    from neural_graph_composer.interval import FloatInterval, FloatIntervalTree
    num = Known if sx.symbolic else float
    m = [(num(b * 4.0), num(e * 4.0), None) for b, e in SHAPES[shape]]
    b = sx.int("x.b", -8, 64) * 0.5
    x = FloatInterval(b, sx.int("x.e", -8, 64) * 0.5 if size is None else b + size)
    sx.assume(x.begin < x.end)
    order = PUTS[put]
    if order is None:
        t = FloatIntervalTree([FloatInterval(*w) for w in m])
        t.add(x)
    else:
        t = FloatIntervalTree()
        for k, c in enumerate(order):
            if k == at:
                t.add(x)
            t.addi(*m[int(c)])
        if at >= len(order):
            t.add(x)
    return t, m, x


BIG = [{"shape": s, "put": p, "at": k, "size": n} for s in SHAPES
       for p, k, n in (("init", 0, 1.5), ("up", 3, 6), ("down", 7, 0.5), ("zigzag", 0, 6))]
BIG_DEEP = BIG + [{"shape": s, "put": p, "at": k} for s in SHAPES
                  for p, k in (("init", 0), ("up", 3), ("down", 7), ("zigzag", 0), ("inward", 5), ("pairs", 2))]


@harness("C37", "seven given intervals (apart, chained, nested, mixed) entered in given orders, and any interval with bounds "
         "m/2 in [-4,32] (quick: of a given length) among them; any point m/4 in [-5,34]", params=BIG, thorough=BIG_DEEP, **OPTS)
def deep_tree_queries(sx, shape, put, at, size=None):
    t, m, x = big(sx, shape, put, at, size)
    m = m + [fields(x)]
    p = sx.int("p", -20, 136) * 0.25
    same_set(sx, t.at(p), [(w, sx.and_(w[0] <= p, p < w[1])) for w in m], "at a point")


@harness("C38", "seven given intervals (apart, chained, nested, mixed) entered in given orders, and any interval with bounds "
         "m/2 in [-4,32] (quick: of a given length) among them; removed in turn", params=[
    dict(b, out=o) for b in BIG for o in ("x3", "360", "0312", "635")], thorough=[
    dict(b, out=o) for b in BIG_DEEP for o in ("x3", "3x", "360", "0312", "635", "2140", "4521", "0123456")], **OPTS)
def deep_tree_edits(sx, shape, put, at, out, size=None):
    t, m, x = big(sx, shape, put, at, size)
    left = dict(enumerate(m))
    left["x"] = fields(x)
    for k in m:  # otherwise removing it removes both
        sx.assume(sx.not_(sx.tup_eq(k, fields(x))))
    sound(sx, t, all_of(left.values()), "entered")
    for c in out + "x":
        w = left.pop(c if c == "x" else int(c), None)
        if w is not None:
            t.removei(*w)
            sound(sx, t, all_of(left.values()), "removed")


@harness("C38", "an empty interval added or given at creation", params=[{"how": h} for h in ("init", "add")], **OPTS)
def tree_null_refused(sx, how):
    from neural_graph_composer.interval import FloatIntervalTree
    a, x = iv(sx, "a"), iv(sx, "x", null=True)
    t = FloatIntervalTree([a])
    _, exc = sx.attempt(lambda: (FloatIntervalTree([a, x]) if how == "init" else t.add(x), 1)[1], ValueError)
    sx.check(sx.iff(exc is not None, x.begin >= x.end), "refused iff empty")
    if how == "add":
        sound(sx, t, [(fields(a), True), (fields(x), x.begin < x.end)], "tree")


@harness("C38", "1-2 (thorough 3) intervals, bounds m/4 in [0,175]; any point or range m/4 in [-25,200]", params=[
    {"n": n, "op": o} for n in (1, 2) for o in ("overlap", "point", "delete", "envelop", "chop", "slice", "chop-f", "slice-f")] + [
    {"n": 3, "op": "point"}], thorough=[
    {"n": n, "op": o} for n in (1, 2, 3) for o in ("overlap", "point", "delete", "envelop", "chop", "slice")
    if n < 3 or o in ("point", "delete")] + [
    {"n": 3, "op": o, "cut": x + y} for o in ("overlap", "slice", "chop", "envelop") for x in "oa" for y in "oa"], **OPTS)
def tree_range_edits(sx, n, op, cut=None):
    t, m = build(sx, n, "init", "none", cut=cut)
    p, q = sx.int("p", -100, 800) * 0.25, sx.int("q", -100, 800) * 0.25
    hit = [sx.and_(p < q, w[0] < q, w[1] > p) for w in m]
    at = [sx.and_(w[0] <= p, p < w[1]) for w in m]
    if op == "overlap":
        t.remove_overlap(p, q)
        want = [(w, sx.not_(h)) for w, h in zip(m, hit)]
    elif op == "point":
        t.remove_overlap(p)
        want = [(w, sx.not_(h)) for w, h in zip(m, at)]
    elif op == "delete":
        del t[p]
        want = [(w, sx.not_(h)) for w, h in zip(m, at)]
    elif op == "envelop":
        t.remove_envelop(p, q)
        want = [(w, sx.not_(sx.and_(p < q, w[0] >= p, w[1] <= q))) for w in m]
    elif op == "slice-f":
        t.slice(p, datafunc=lambda w, left: "l" if left else "r")
        cut = [sx.and_(w[0] < p, p < w[1]) for w in m]
        want = [(w, sx.not_(c)) for w, c in zip(m, cut)]
        want += [((w[0], p, "l"), c) for w, c in zip(m, cut)] + [((p, w[1], "r"), c) for w, c in zip(m, cut)]
    elif op == "chop-f":
        sx.assume(p < q)
        t.chop(p, q, datafunc=lambda w, left: "l" if left else "r")
        want = [(w, sx.or_(w[1] <= p, w[0] >= q)) for w in m]
        want += [((w[0], p, "l"), sx.and_(w[0] < p, w[1] > p)) for w in m]
        want += [((q, w[1], "r"), sx.and_(w[0] < q, w[1] > q)) for w in m]
    elif op == "slice":
        t.slice(p)
        want = [(w, sx.not_(sx.and_(w[0] < p, p < w[1]))) for w in m]
        want += [((w[0], p, None), sx.and_(w[0] < p, p < w[1])) for w in m]
        want += [((p, w[1], None), sx.and_(w[0] < p, p < w[1])) for w in m]
    else:
        sx.assume(p < q)
        t.chop(p, q)
        want = [(w, sx.or_(w[1] <= p, w[0] >= q)) for w in m]
        want += [((w[0], p, None), sx.and_(w[0] < p, w[1] > p)) for w in m]
        want += [((q, w[1], None), sx.and_(w[0] < q, w[1] > q)) for w in m]
    sound(sx, t, want, op)


@harness("C38", "0-2 intervals in each of two trees, bounds m/4 in [0,125]", params=[
    {"n": n, "k": k, "op": o} for n, k in ((0, 1), (1, 0), (1, 1), (2, 1), (1, 2)) for o in
    ("union", "intersection", "difference", "symmetric_difference", "update", "difference_update",
     "intersection_update", "symmetric_difference_update")], thorough=[
    {"n": n, "k": k, "op": o} for n, k in ((0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2)) for o in
    ("union", "intersection", "difference", "symmetric_difference", "update", "difference_update",
     "intersection_update", "symmetric_difference_update")], **OPTS)
def tree_set_operations(sx, n, k, op):
    from neural_graph_composer.interval import FloatIntervalTree
    a = [iv(sx, f"a{i}", 0, 5) for i in range(n)]
    b = [iv(sx, f"b{i}", 0, 5) for i in range(k)]
    t, u = FloatIntervalTree(a), FloatIntervalTree(b)
    fa, fb = [fields(x) for x in a], [fields(x) for x in b]
    r = getattr(t, op)(u)
    kind = op.replace("_update", "") if op != "update" else "union"
    want = {"union": [(w, True) for w in fa + fb],
            "intersection": [(w, sx.member(w, fb)) for w in fa],
            "difference": [(w, sx.not_(sx.member(w, fb))) for w in fa],
            "symmetric_difference": [(w, sx.not_(sx.member(w, fb))) for w in fa] +
                                    [(w, sx.not_(sx.member(w, fa))) for w in fb]}[kind]
    if "update" in op:
        sound(sx, t, want, op)
    else:
        sx.check(type(r) is FloatIntervalTree, "a tree")
        sound(sx, r, want, op)
        sound(sx, t, all_of(fa), "left operand kept")
    sound(sx, u, all_of(fb), "right operand kept")


@harness("C38", "0-3 intervals, bounds m/4 in [0,150]; merging with and without touching, splitting", params=[
    {"n": n, "op": o} for n in (0, 1, 2, 3) for o in ("merge", "touch", "equal", "split", "near", "near-all")], **OPTS)
def tree_merging(sx, n, op):
    t, m = build(sx, n, "init", "distinct", hi=6)
    p = sx.int("p", 0, 600) * 0.25
    if op in ("merge", "touch", "equal"):
        {"merge": lambda: t.merge_overlaps(), "touch": lambda: t.merge_overlaps(strict=False),
         "equal": lambda: t.merge_equals()}[op]()
    elif op == "split":
        t.split_overlaps()
    else:
        dist = sx.int("dist", 0, 8) * 0.25
        t.merge_neighbors(distance=dist, strict=op == "near")
    sound_only = sx.attempt(lambda: t.verify(), AssertionError)[1]
    sx.check(sound_only is None, "structure")
    got = [fields(x) for x in t]
    cover = lambda xs, v: sx.any_(sx.and_(w[0] <= v, v < w[1]) for w in xs)  # noqa
    bounds = [w[0] for w in m] + [w[1] for w in m]
    if not op.startswith("near"):
        sx.check(sx.iff(cover(got, p), cover(m, p)), "the same points are covered")
    else:
        sx.check(sx.implies(cover(m, p), cover(got, p)), "no point is lost")
        near = sx.or_(cover(m, p), sx.any_(sx.and_(a[1] <= p, p < b[0], b[0] - a[1] <= dist) for a in m for b in m))
        sx.check(sx.implies(cover(got, p), near), "only small gaps are closed")
    for g in got:
        sx.check(sx.any_(g[0] == v for v in bounds) if bounds else False, "bounds are those given")
        sx.check(sx.any_(g[1] == v for v in bounds) if bounds else False, "bounds are those given")
    for i, a in enumerate(got):
        for b in got[:i]:
            apart = sx.or_(a[1] <= b[0], b[1] <= a[0])
            touch = sx.or_(a[1] == b[0], b[1] == a[0])
            if op == "merge":
                sx.check(apart, "nothing overlaps")
            elif op == "touch":
                sx.check(sx.and_(apart, sx.not_(touch)), "nothing overlaps or touches")
            elif op == "equal":
                sx.check(sx.not_(sx.and_(a[0] == b[0], a[1] == b[1])), "no range twice")
            elif op == "split":
                sx.check(sx.or_(apart, sx.and_(a[0] == b[0], a[1] == b[1])), "equal or apart")
            elif op == "near-all":
                sx.check(sx.or_(a[0] - b[1] > dist, b[0] - a[1] > dist), "far apart")
    if op == "near" and n == 2:  # the given order is by begin, then end
        gap = m[1][0] - m[0][1]
        if bool(sx.and_(gap >= 0, gap <= dist)):
            sx.check(len(got) == 1 and sx.and_(got[0][0] == m[0][0], got[0][1] == m[1][1]), "neighbours are merged")
        else:
            same_set(sx, t, all_of(m), "others are kept apart")
    if op == "equal":
        for w in m:
            sx.check(sx.any_(sx.and_(g[0] == w[0], g[1] == w[1]) for g in got), "every range kept")
    if op == "split":
        for g in got:
            sx.check(sx.any_(sx.and_(w[0] <= g[0], g[1] <= w[1], w[2] == g[2]) for w in m), "a part of an interval")
            for v in bounds:
                sx.check(sx.not_(sx.and_(g[0] < v, v < g[1])), "no bound inside")
        for w in m:
            sx.check(sx.implies(sx.and_(w[0] <= p, p < w[1]),
                                sx.any_(sx.and_(g[0] <= p, p < g[1], g[2] == w[2]) for g in got)), "every part kept")
    for w in m:
        alone = sx.all_(sx.or_(w[1] < v[0], v[1] < w[0]) for v in m if v is not w)
        if op != "split" and not op.startswith("near"):
            sx.check(sx.implies(alone, sx.member(w, got)), "an interval apart is kept whole")


@harness("C38", "two or three intervals, bounds m/4 in [0,150], data combined by a function, with and without a start value",
         params=[{"n": n, "op": o, "start": s} for n in (2, 3) for o in ("overlaps", "equals", "neighbors")
                 for s in (None, 100)], **OPTS)
def tree_reduced_data(sx, n, op, start):
    from neural_graph_composer.interval import FloatInterval, FloatIntervalTree
    xs = [iv(sx, f"i{k}", 0, 6, data=1 << k) for k in range(n)]
    t = FloatIntervalTree(xs)
    getattr(t, "merge_" + op)(data_reducer=lambda a, b: a + b, data_initializer=start)
    got = [fields(x) for x in t]
    total = sum(g[2] for g in got) - (start or 0) * len(got)
    sx.check(total == (1 << n) - 1, "every datum once")
    for g in got:
        d = g[2] - (start or 0)
        for k, x in enumerate(xs):
            if (d >> k) & 1:
                sx.check(sx.and_(g[0] <= x.begin, x.end <= g[1]), "data of the intervals merged")


@harness("C38", "clearing, assigning a slice, adding twice", params=[{"op": o} for o in ("clear", "assign", "twice")], **OPTS)
def tree_other_edits(sx, op):
    t, m = build(sx, 2, "10", "none", hi=5)
    p, q = sx.int("p", -1, 6), sx.int("q", -1, 6)
    if op == "clear":
        t.clear()
        sound(sx, t, [], "cleared")
        t.addi(p, p + 1)
        sound(sx, t, [((p, p + 1, None), True)], "used again")
    elif op == "assign":
        _, exc = sx.attempt(lambda: t.__setitem__(slice(p, q), None), ValueError)
        sx.check(sx.iff(exc is None, p < q), "empty range refused")
        sound(sx, t, all_of(m) + [((p, q, None), p < q)], "assigned")
    else:
        t.addi(*m[0])
        t.append(list(t)[0])
        sound(sx, t, all_of(m), "added twice")
