"""C07 scan axes"""
import numpy as np
from dv.engine import contract, bind

A = bind("spectrocrunch.process.axis:")
from spectrocrunch.utils import units

F = "process/axis.py:"
MOD = ("spectrocrunch.process.axis",)

PROPERTY = {
    "title": "Scan axes hold exactly the requested positions, in any unit",
    "statement": "A regular, incremental, segmented or single-value axis has exactly the number of positions and the positions defined by its start, end, steps and limits (ascan: n intervals, zapscan: pixel centers); changing one of these quantities changes that quantity and not the number of positions, and changing the number of steps keeps the other defining quantities. "
    "Converting units keeps the physical positions and leaves the original axis alone, and simplifying an array of positions to a compact axis keeps every position. "
    "Two axes are equal when they have as many positions and none differ by more than the precision; locating gives the closest position; interpolation coordinates increase also for reversed axes; and new limits extend or crop the axis with its own step such that both limits are covered and all old positions in between are kept.",
    "over": ["inputs"],
    "for_all": "all starts, ends, step sizes, limits, units and positions; numbers of positions enumerated",
    "why": "Tests construct a few integer ranges.",
    "files": ["process/axis.py"],
    "mechanism": [
        ("axis classes", "process/axis.py: AxisRegular, AxisRegularInc, AxisNumber, AxisSegments"),
        ("simplification", "process/axis.py: Axis.simplify, factory"),
        ("limits and lookup", "process/axis.py: newlimits, locate, interpolate"),
    ],
}
META = {
    "level": "proof",
    "explanation": "positions, step sizes and limits are unbounded symbolic reals, the number of positions is enumerated up to 5 to 7 and the number of segments up to 3.",
    "trusted": ["pint unit conversion is multiplication by a constant", "numpy linspace and arange"],
    "assumptions": ["strictly monotonic axes for locating, cropping and extending"],
}

UNITS = [("um", "um", 1), ("um", "mm", 1e-3), ("mm", "um", 1000)]


def Q(x, u):
    return units.Quantity(x, u)


def mags(ax, u):
    return list(ax.values.to(u).magnitude)


def total(x):
    t = 0
    for v in x:
        t = t + v
    return t


def regular(a, b, n):
    """n intervals between a and b"""
    return [a + (b - a) * i / n for i in range(n + 1)]


def check(c, name, ax, pos, u):
    """ax has the given positions (in units u), and its attributes agree"""
    c.eq(name + " size", [ax.size, len(ax), ax.nsteps if not isinstance(ax, A.AxisSegments) else ax.size - 1], [len(pos), len(pos), len(pos) - 1])
    c.eq(name + " positions", mags(ax, u), list(pos))
    c.eq(name + " start and end", [ax.start.to(u).magnitude, ax.end.to(u).magnitude], [pos[0], pos[-1]])
    if len(pos) > 1:
        c.eq(name + " steps", [ax.start_stepsize.to(u).magnitude, ax.end_stepsize.to(u).magnitude], [pos[1] - pos[0], pos[-1] - pos[-2]])


@contract("C07", functions=[F + "AxisRegular.values", F + "AxisRegularInc.values", F + "AxisNumber.values", F + "ascan", F + "zapscan"], builtins=MOD, split=6)
def regular_positions(c):
    """positions of regular axes"""
    kind = c.choice("kind", ["regular", "inc", "ascan", "zapscan", "zapscan1", "number"])
    n = c.choice("n", [1, 2, 3, 4, 6])
    u, u2, f = c.choice("units", UNITS)
    a, b = c.real("a"), c.real("b")
    if kind == "number":
        check(c, kind, A.AxisNumber(Q(a, u)), [a], u)
    elif kind == "regular":
        # the end in other units than the start
        check(c, kind, A.AxisRegular(Q(a, u), Q(b * f, u2), n), regular(a, b, n), u)
    elif kind == "inc":
        check(c, kind, A.AxisRegularInc(Q(a, u), Q(b * f, u2), n), [a + b * i for i in range(n + 1)], u)
    elif kind == "ascan":
        check(c, kind, A.ascan(a, b, n, unit=u), regular(a, b, n), u)
    elif kind == "zapscan":
        h = (b - a) / (2 * (n + 1))
        check(c, kind, A.zapscan(a, b, n + 1, unit=u), [a + h * (2 * i + 1) for i in range(n + 1)], u)
    else:
        ax = A.zapscan(a, b, 1, unit=u)
        c.eq("one pixel", mags(ax, u), [(a + b) / 2])


@contract("C07", functions=[F + "AxisRegular.values", F + "AxisSegments.values", F + "AxisRegular.size", F + "AxisRegularInc.size"], builtins=MOD, split=4)
def no_steps(c):
    """an axis with a single position"""
    kind = c.choice("kind", ["regular", "inc"])
    a, b = c.real("a"), c.real("b")
    if kind == "regular":
        ax = A.AxisRegular(Q(a, "um"), Q(b, "um"), 0)
    else:
        ax = A.AxisRegularInc(Q(a, "um"), Q(b, "um"), 0)
    c.eq("size", [len(ax), ax.size], [1, 1])
    c.eq("position", mags(ax, "um"), [a])


def steps(n):
    return [n, n + 2]


@contract("C07", functions=[F + "AxisRegular." + x for x in ("start", "end", "stepsize", "size", "nsteps")], builtins=MOD, split=5)
def regular_setters(c):
    """changing one quantity of a regular axis"""
    what = c.choice("what", ["start", "end", "stepsize", "size", "nsteps"])
    n = c.choice("n", [1, 2, 4])
    u, u2, f = c.choice("units", UNITS)
    a, b, v = c.real("a"), c.real("b"), c.real("v")
    ax = A.AxisRegular(Q(a, u), Q(b, u), n)
    if what == "start":
        ax.start = Q(v, u)
        check(c, what, ax, regular(v, b, n), u)
    elif what == "end":
        ax.end = Q(v * f, u2)
        check(c, what, ax, regular(a, v, n), u)
    elif what == "stepsize":
        ax.stepsize = Q(v * f, u2)
        check(c, what, ax, [a + v * i for i in range(n + 1)], u)
    elif what == "size":
        ax.size = n + 3
        check(c, what, ax, regular(a, b, n + 2), u)
    else:
        ax.nsteps = n + 2
        check(c, what, ax, regular(a, b, n + 2), u)


@contract("C07", functions=[F + "AxisRegularInc." + x for x in ("start", "end", "stepsize", "size", "nsteps")], builtins=MOD, split=5)
def incremental_setters(c):
    """changing one quantity of an axis defined by its step size"""
    what = c.choice("what", ["start", "end", "stepsize", "size", "nsteps"])
    n = c.choice("n", [1, 2, 4])
    u, u2, f = c.choice("units", UNITS)
    a, s, v = c.real("a"), c.real("s"), c.real("v")
    ax = A.AxisRegularInc(Q(a, u), Q(s, u), n)
    if what == "start":
        ax.start = Q(v, u)
        check(c, what, ax, [v + s * i for i in range(n + 1)], u)
    elif what == "end":
        ax.end = Q(v * f, u2)
        check(c, what, ax, regular(a, v, n), u)
    elif what == "stepsize":
        ax.stepsize = Q(v * f, u2)
        check(c, what, ax, [a + v * i for i in range(n + 1)], u)
    elif what == "size":
        ax.size = n + 3
        check(c, what, ax, [a + s * i for i in range(n + 3)], u)
    else:
        ax.nsteps = n + 2
        check(c, what, ax, [a + s * i for i in range(n + 3)], u)


SEGMENTS = [(1,), (3,), (1, 1), (2, 3), (1, 2, 2)]


def segments(lim, ns):
    out = []
    for a, b, n in zip(lim[:-1], lim[1:], ns):
        out += regular(a, b, n)[:-1]
    return out + [lim[-1]]


@contract("C07", functions=[F + "AxisSegments.values", F + "AxisSegments.limits", F + "AxisSegments.nsteps", F + "AxisSegments.start_stepsize", F + "AxisSegments.end_stepsize"], builtins=MOD, split=5)
def segment_positions(c):
    """segments with different step sizes"""
    ns = c.choice("segments", SEGMENTS)
    mixed = c.bool("mixed units")
    lim = c.reals("l", len(ns) + 1)
    qlim = [Q(v, "um") if i == 0 or not mixed else Q(v / 1000, "mm") for i, v in enumerate(lim)]
    ax = A.AxisSegments(qlim, list(ns))
    check(c, "new", ax, segments(lim, ns), "um")
    c.eq("nsegments", [ax.nsegments, len(ax.limits)], [len(ns), len(lim)])
    c.eq("steps", list(ax.stepsizes.to("um").magnitude), [(b - a) / n for a, b, n in zip(lim[:-1], lim[1:], ns)])
    c.eq("limits", list(ax.limits.to("um").magnitude), lim)
    new = tuple(n + 1 for n in ns)
    ax.nsteps = list(new)
    check(c, "other steps", ax, segments(lim, new), "um")
    lim2 = c.reals("m", len(ns) + 1)
    ax.limits = [Q(v, "um") for v in lim2]
    check(c, "other limits", ax, segments(lim2, new), "um")
    c.raises("mismatch", ValueError, lambda: A.AxisSegments(qlim, list(ns) + [1]))


@contract("C07", functions=[F + "AxisSegments.stepsizes"], mode="bounded", bound="1 to 3 segments with 1 to 8 steps each", samples=150)
def segment_stepsizes(c):
    """the number of steps follows from the step sizes"""
    k = c.choice("segments", [1, 2, 3])
    lim, s, ns = [c.real("l0", -10, 10)], [], []
    for i in range(k):
        n = c.int("n%d" % i, 1, 8)
        sgn = c.choice("sign%d" % i, [1, -1])
        d = sgn * c.real("s%d" % i, 0.1, 5)
        s.append(d)
        ns.append(n)
        lim.append(lim[-1] + n * d)
    u = c.choice("units", [None, "um", "mm"])
    ax = A.AxisSegments([Q(v, "um") for v in lim], [1] * k)
    f = 1e-3 if u == "mm" else 1
    # not an exact divisor: closest number of steps
    e = c.real("error", -0.03, 0.03)
    ax.stepsizes = [v * f * (1 + e) if u is None else Q(v * f * (1 + e), u) for v in s]
    c.eq("nsteps", list(ax.nsteps), ns)
    check(c, "stepsizes", ax, segments(lim, ns), "um")


KINDS = ["plain", "regular", "inc", "segments", "number"]


def make(c, kind, u="um", pre=""):
    """an axis of any kind with its positions"""
    if kind == "number":
        a = c.real(pre + "a")
        return A.AxisNumber(Q(a, u)), [a]
    if kind == "plain":
        x = c.reals(pre + "x", 4)
        return A.Axis(Q(c.obj(*x), u)), x
    if kind == "segments":
        lim = c.reals(pre + "l", 3)
        return A.AxisSegments([Q(v, u) for v in lim], [2, 1]), segments(lim, [2, 1])
    a, b = c.real(pre + "a"), c.real(pre + "b")
    if kind == "regular":
        return A.AxisRegular(Q(a, u), Q(b, u), 3), regular(a, b, 3)
    return A.AxisRegularInc(Q(a, u), Q(b, u), 3), [a + b * i for i in range(4)]


@contract("C07", functions=[F + x for x in ("Axis.to", "Axis.units", "_AxisRegular.units", "AxisSegments.units", "Axis.umagnitude")], builtins=MOD, split=5)
def unit_conversion(c):
    """same positions in other units"""
    kind = c.choice("kind", KINDS)
    u2, f = c.choice("to", [("mm", 1e-3), ("nm", 1e3), ("um", 1)])
    ax, x = make(c, kind)
    conv = ax.to(u2)
    y = [v * f for v in x]
    c.eq("units", "{:~}".format(conv.units), "{:~}".format(units.Quantity(1, u2).units))
    check(c, "converted", conv, y, u2)
    c.eq("magnitude", list(conv.magnitude), y)
    c.eq("umagnitude", list(conv.umagnitude("um")), x)
    check(c, "back", conv.to("um"), x, "um")
    check(c, "original", ax, x, "um")
    c.eq("original magnitude", list(ax.magnitude), x)
    # in place
    ax.units = u2
    c.eq("in place", list(ax.magnitude), y)
    check(c, "in place", ax, y, u2)
    check(c, "converted is independent", conv, y, u2)


@contract("C07", functions=[F + "Axis.simplify", F + "Axis.factory"], builtins=MOD, max_paths=6000, split=5, samples=250)
def simplify(c):
    """a compact description has the same positions"""
    n = c.choice("n", [1, 2, 3, 4, 5])
    # pieces with equal steps
    same = [c.bool("same%d" % i) for i in range(n - 2)]
    x = []
    for i in range(n):
        x.append(2 * x[-1] - x[-2] if i > 1 and same[i - 2] else c.real("x%d" % i))
    ax = A.factory(Q(c.obj(*x), "um"))
    c.eq("size", len(ax), n)
    c.eq("positions", mags(ax, "um"), x)
    c.eq("ends", [ax.start.to("um").magnitude, ax.end.to("um").magnitude], [x[0], x[-1]])


@contract("C07", functions=[F + "Axis.simplify"], mode="bounded", bound="up to 4 segments of up to 12 steps", samples=200)
def simplify_long(c):
    """long axes; within the precision"""
    k = c.choice("segments", [1, 2, 3, 4])
    x = [c.real("x0", -10, 10)]
    for i in range(k):
        n, d = c.int("n%d" % i, 1, 12), c.real("d%d" % i, -3, 3)
        c.assume(abs(d) > 0.01)
        x += [x[-1] + d * (j + 1) for j in range(n)]
    x = np.array(x)
    prec = c.choice("precision", [1e-6, 1e-3])
    noise = c.choice("noise", [0, 0.2])
    x = x + noise * prec * np.array([(-1) ** i for i in range(len(x))])
    ax = A.factory(Q(x, "um"), precision=Q(prec, "um"))
    c.eq("size", len(ax), len(x))
    c.eq("positions", mags(ax, "um"), list(x), atol=prec * len(x) ** 2, rtol=0)
    c.eq("ends", [ax.start.to("um").magnitude, ax.end.to("um").magnitude], [x[0], x[-1]])


@contract("C07", functions=[F + "Axis.__eq__", F + "Axis.__ne__", F + "Axis.precision"], builtins=MOD, max_paths=6000, split=3)
def equality(c):
    """as many positions which do not differ more than the precision"""
    n = c.choice("n", [1, 2, 3])
    u, f = c.choice("units", [("um", 1), ("mm", 1e-3)])
    x = c.reals("x", n)
    d = c.reals("d", n)
    p = c.choice("precision", [None, "number", "quantity"])
    t = 0 if p is None else c.real("p", 0, 3)
    prec = None if p is None else t if p == "number" else Q(t / 1000, "mm")
    y = [a + b for a, b in zip(x, d)]
    ax = A.Axis(Q(c.obj(*x), "um"), precision=prec)
    ay = A.Axis(Q(c.obj(*[v * f for v in y]), u))
    if not c.symbolic:
        # not decided by rounding errors
        c.assume(all(abs(abs(v) - t) > 1e-6 for v in d))
    want = True
    for v in d:
        if v > t or -v > t:
            want = False
            break
    c.eq("equal", [bool(ax == ay), bool(ax != ay)], [want, not want])
    c.eq("different size", [ax == A.Axis(Q(c.obj(*(y + [0.5])), u)), ax != A.Axis(Q(c.obj(*(y + [0.5])), u))], [False, True])


@contract("C07", functions=[F + "Axis.__eq__"], mode="bounded", bound="up to 5 positions", samples=120)
def equality_nan(c):
    """positions that are not known on both axes"""
    n = c.choice("n", [1, 2, 5])
    x = np.array([c.real("x%d" % i, -5, 5, nan=True) for i in range(n)])
    y = np.array([c.real("y%d" % i, -5, 5, nan=True) if c.bool("change%d" % i) else x[i] for i in range(n)])
    want = bool((np.isnan(x) == np.isnan(y)).all() and all(a == b for a, b in zip(x, y) if a == a))
    c.eq("equal", bool(A.Axis(Q(x, "um")) == A.Axis(Q(y, "um"))), want)


def distance(x, v):
    return [abs(a - v) for a in x]


@contract("C07", functions=[F + "Axis.locate", F + "Axis._extract_magnitude", F + "arg_closest_num"], builtins=MOD, max_paths=6000, split=4)
def locate(c):
    """closest position"""
    n = c.choice("n", [1, 2, 3, 4])
    form = c.choice("form", ["number", "quantity", "array", "axis"])
    if form in ("array", "axis"):
        n = min(n, 2)
    x = c.reals("x", n)
    v, w = c.real("v"), c.real("w")
    ax = A.Axis(Q(c.obj(*x), "um"))
    if form == "number":
        got, want = [ax.locate(v)], [v]
    elif form == "quantity":
        got, want = [ax.locate(Q(v / 1000, "mm"))], [v]
    elif form == "array":
        got, want = ax.locate(c.obj(v, w)), [v, w]
    else:
        got, want = ax.locate(A.Axis(Q(c.obj(v / 1000, w / 1000), "mm"))), [v, w]
    c.eq("number", len(got), len(want))
    for i, t in zip(got, want):
        i = int(i)
        c.holds("valid", 0 <= i < n)
        for a in x:
            c.le("closest", abs(x[i] - t), abs(a - t))
    c.eq("everything", ax.locate(None), slice(None))


@contract("C07", functions=[F + "Axis.locate", F + "arg_closest_string", F + "arg_index"], mode="bounded", bound="up to 6 labels", samples=80)
def locate_labels(c):
    """positions of labels"""
    labels = ["Fe", "Ca K", "Si", "scatter", "Pb-M", "x"][: c.int("n", 1, 6)]
    kind = c.choice("kind", ["strings", "numbers"])
    i, j = c.int("i", 0, 5), c.int("j", 0, 5)
    c.assume(i < len(labels) and j < len(labels))
    data = labels if kind == "strings" else [3 * k + 1 for k in range(len(labels))]
    if kind == "strings":
        ax = A.factory(list(data), type="nominal")
        c.eq("one", int(ax.locate(data[i])), i)
        c.eq("more", [int(k) for k in ax.locate([data[j], data[i]])], [j, i])
        c.eq("index", [list(k) for k in ax.interpolate([data[j], data[i]])], [list(range(len(labels))), [j, i]])
        c.eq("same", ax == A.factory(list(data), type="nominal"), True)
        c.eq("other", ax == A.factory(data[:i] + ["other"] + data[i + 1 :], type="nominal"), False)
    else:
        ax = A.Axis(Q(np.array(data), "dimensionless"))
        c.eq("index", ax.locate(i, detectindex=True), i)
        c.eq("value", int(ax.locate(float(data[i]), detectindex=True)), i)
        c.eq("values", [int(k) for k in ax.locate(np.array([data[i], data[j]]))], [i, j])


@contract("C07", functions=[F + "Axis.interpolate"], builtins=MOD, split=4)
def interpolate(c):
    """increasing coordinates, preserving distances"""
    n = c.choice("n", [1, 2, 3, 5])
    sgn = c.choice("direction", [1, -1])
    x = [c.real("x0")]
    for i in range(1, n):
        x.append(x[-1] + sgn * c.pos("d%d" % i, 0.1, 4))
    v, w = c.real("v"), c.real("w")
    ax = A.Axis(Q(c.obj(*x), "um"))
    form = c.choice("form", ["quantity", "array", "axis", "number", "number quantity"])
    at = {
        "quantity": lambda: Q(c.obj(v / 1000, w / 1000), "mm"),
        "array": lambda: c.obj(v, w),
        "axis": lambda: A.Axis(Q(c.obj(v / 1000, w / 1000), "mm")),
        "number": lambda: v,
        "number quantity": lambda: Q(v / 1000, "mm"),
    }[form]()
    old, new = ax.interpolate(at)
    s = sgn if n > 1 else 1
    c.eq("increasing", [b - a for a, b in zip(old[:-1], old[1:])], [s * (b - a) for a, b in zip(x[:-1], x[1:])])
    if form.startswith("number"):
        c.eq("same coordinate", new - old[0], s * (v - x[0]))
    else:
        c.eq("same coordinates", [new[0] - old[0], new[1] - old[0]], [s * (v - x[0]), s * (w - x[0])])
    old, new = ax.interpolate(None)
    c.eq("itself", list(new), list(old))
    c.eq("itself increasing", [b - a for a, b in zip(old[:-1], old[1:])], [s * (b - a) for a, b in zip(x[:-1], x[1:])])


def between(c, name, margin=0):
    """0 or anything in (0, 1)"""
    if not margin and not c.bool(name + " between"):
        return 0
    u = c.real(name, margin, 1 - margin, lo_open=True, hi_open=True)
    return u if c.symbolic else min(max(round(u * 16), 1), 15) / 16.0


def coarse(c, v):
    """computers represent the positions without rounding"""
    return v if c.symbolic else max(round(abs(v) * 16), 1) / 16.0 * (1 if v >= 0 else -1)


@contract("C07", functions=[F + "Axis.newlimits", F + "Axis.newstart", F + "Axis.newend"], builtins=MOD, max_paths=20000, split=10)
def new_limits(c):
    """smallest range of positions covering both limits: regular axes"""
    k = c.choice("start", list(range(-2, 3)))
    sgn = c.choice("direction", [1, -1])
    n = 3
    a, s = coarse(c, c.real("a")), sgn * coarse(c, c.pos("s", 0.1, 4))
    ax = A.AxisRegularInc(Q(a, "um"), Q(s, "um"), n - 1)
    k2 = c.choice("end", list(range(-2, n + 2)))
    u1, u2 = between(c, "u1"), between(c, "u2")
    c.assume(k + u1 <= k2 + u2)
    new = ax.newlimits(a + s * (k + u1), a + s * (k2 + u2))
    c.holds("found", new is not None)
    c.eq("positions", mags(new, "um"), [a + s * i for i in range(k, k2 + (1 if type(u2) is int else 2))])
    c.eq("original", mags(ax, "um"), [a + s * i for i in range(n)])


@contract("C07", functions=[F + "Axis.newlimits", F + "Axis.newstart", F + "Axis.newend"], builtins=MOD, max_paths=20000, split=8)
def new_limits_irregular(c):
    """cropping and extending axes with varying step sizes, limits in other units"""
    k = c.choice("start", [-1, 0, 1, 2])
    k2 = c.choice("end", [0, 1, 2, 3])
    sgn = c.choice("direction", [1, -1])
    n = 3
    x = [coarse(c, c.real("a"))]
    for i in range(n - 1):
        x.append(x[-1] + sgn * coarse(c, c.pos("s%d" % i, 0.1, 4)))
    # continued with the first and last step
    full = [2 * x[0] - x[1]] + x + [2 * x[-1] - x[-2], 3 * x[-1] - 2 * x[-2]]
    converted = c.bool("segments in other units")
    # conversion has rounding errors
    margin = 0.001 if converted else 0
    u1, u2 = between(c, "u1", margin), between(c, "u2", margin)
    c.assume(k + u1 <= k2 + u2)
    q = A.Axis(Q(c.obj(*x), "um"))
    if converted:
        q = A.AxisSegments([Q(v, "um") for v in x], [1] * (n - 1))
        if not c.symbolic:
            q = q.to("nm")
    l0 = full[k + 1] + u1 * (full[k + 2] - full[k + 1])
    l1 = full[k2 + 1] + u2 * (full[k2 + 2] - full[k2 + 1])
    new = q.newlimits(Q(l0, "um"), Q(l1, "um"))
    c.holds("found", new is not None)
    c.eq("positions", mags(new, "um"), full[k + 1 : k2 + (2 if type(u2) is int else 3)])
    c.eq("original", mags(q, "um"), x)
