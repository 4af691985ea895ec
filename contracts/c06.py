"""C06 spatial transformations"""
import sys

import numpy as np
from dv.engine import contract, bind
from dv import funcs
import math

T = bind("spectrocrunch.align.transform:")
from spectrocrunch.align.types import transformationType as TT

F = "align/transform.py:LinearMapping."

PROPERTY = {
    "title": "Image transformations compose, invert and map coordinates consistently",
    "statement": "Applying a combination of translations, rigid, similarity, affine and projective transformations (combined in either order, in place or not, seen from another reference frame, or inverted) to coordinates gives the same result as applying them one after the other, undoing them or changing frame and back. "
    "Setting a translation, linear, affine, rigid or projective part and reading it back gives the same part, other parts are kept, and a copy or a transformation read from another one is independent of the original. "
    "A transformed image shows at each coordinate the (interpolated) value of the original image at the coordinate it came from, and the transformation estimated from matching key points is the one that relates them.",
    "over": ["inputs"],
    "for_all": "all matrices, coordinates, transformation types and pairs of types, all sets of key points",
    "why": "Tests combine two rigid transformations and one fixed coordinate; type combinations, frames, signs of rotations and aliasing of copies are not sampled.",
    "files": ["align/transform.py"],
    "mechanism": [
        ("composition", "align/transform.py: LinearMapping._combine, after, before, new_frame"),
        ("coordinates and images", "align/transform.py: LinearMapping.transformcoordinates, transformimage"),
        ("estimation", "align/transform.py: LinearMapping.fromkeypoints"),
    ],
}
META = {
    "level": "proof",
    "explanation": "matrices, angles and coordinates are symbolic reals, every pair of types is enumerated; estimation of rigid transformations and of the interpolated image values is bounded (random draws).",
    "trusted": ["numpy.linalg.inv (adjugate over determinant)", "scipy.ndimage.shift: output[o] = input[o - s]; affine_transform: output[o] = input[M.o + offset]", "lstsq returns the solution of a consistent system of full rank", "trim_mean of equal values"],
    "assumptions": ["invertible matrices"],
}

TYPES = ["translation", "rigid", "similarity", "affine", "projective"]
AFF = TYPES[:4]


def new(c, t, **kw):
    return T.transform(getattr(TT, t), dtype=object if c.symbolic else float, **kw)


def det3(M):
    return (
        M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1])
        - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
        + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0])
    )


def make(c, tag, t):
    """(transformation, matrix M with Xold = M.Xnew)"""
    L = new(c, t)
    tx, ty = c.real(tag + ".tx", -20, 20), c.real(tag + ".ty", -20, 20)
    if t == "translation":
        L.settranslation(tx, ty)
        return L, [[1, 0, tx], [0, 1, ty], [0, 0, 1]]
    if t in ("rigid", "similarity"):
        if c.symbolic:
            p, q = c.real(tag + ".c"), c.real(tag + ".s")
            if t == "rigid":
                c.assume(p * p + q * q == 1)
            else:
                c.assume(p * p + q * q > 0)
        else:
            a = c.real(tag + ".a", -3, 3)
            s = c.real(tag + ".scale", 0.3, 3) if t == "similarity" else 1
            p, q = s * math.cos(a), s * math.sin(a)
        M = [[p, -q, tx], [q, p, ty], [0, 0, 1]]
        L.setaffine(M[:2])
        return L, M
    A = [[c.real("%s.m%d%d" % (tag, i, j), -2, 2) for j in range(2)] for i in range(2)]
    if t == "affine":
        d = A[0][0] * A[1][1] - A[0][1] * A[1][0]
        c.assume(abs(d) > 0.2)
        M = [A[0] + [tx], A[1] + [ty], [0, 0, 1]]
        L.setaffine(M[:2])
        return L, M
    P = [c.real("%s.p%d" % (tag, i), -0.05, 0.05) for i in range(2)]
    M = [A[0] + [tx], A[1] + [ty], P + [1]]
    c.assume(abs(det3(M)) > 0.2)
    L.setprojective(M)
    return L, M


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def app(M, v):
    return [sum(M[i][k] * v[k] for k in range(3)) for i in range(3)]


def coord(c, n=3):
    v = [c.real("x", -50, 50), c.real("y", -50, 50)]
    return v + [1]


def vec(c, v):
    return np.array(v, dtype=object if c.symbolic else float)


def old(c, L, v):
    """Xold = cof.Xnew through the public interface"""
    return list(L.transformcoordinatesinverse(vec(c, v)))


@contract("C06", functions=[F + x for x in ("_combine", "_dot", "_dotinplace", "after", "before", "after_inplace", "before_inplace", "transformcoordinatesinverse", "getnumpyhomography")], split=5)
def combine(c):
    """combined transformations act one after the other"""
    ta, tb = c.choice("A", TYPES), c.choice("B", TYPES)
    A, MA = make(c, "A", ta)
    B, MB = make(c, "B", tb)
    v = coord(c)
    how = c.choice("how", ["after", "before", "after_inplace", "before_inplace"])
    # first A, then B (Xold = MA.MB.Xnew) or first B, then A
    if how == "after":
        C = B.after(A)
    elif how == "before":
        C = A.before(B)
    elif how == "after_inplace":
        B.after_inplace(A)
        C = B
    else:
        A.before_inplace(B)
        C = A
    M = mul(MA, MB)
    c.eq("coordinates", old(c, C, v), app(M, v))
    c.eq("homography", [list(r) for r in C.getnumpyhomography()], M)
    if not how.endswith("inplace"):
        c.eq("operands", [old(c, A, v), old(c, B, v)], [app(MA, v), app(MB, v)])
    elif how == "after_inplace":
        c.eq("operand", old(c, A, v), app(MA, v))
    else:
        c.eq("operand", old(c, B, v), app(MB, v))


@contract("C06", functions=[F + x for x in ("inverse", "inverse_inplace", "transformcoordinates", "_transformcoordinates", "isidentity")])
def invert(c):
    """a transformation and its inverse undo each other"""
    A, MA = make(c, "A", c.choice("A", TYPES))
    v = coord(c)
    w = app(MA, v)
    I = A.inverse()
    c.eq("forward", list(A.transformcoordinates(vec(c, w))), v)
    c.eq("inverse", old(c, I, w), v)
    c.eq("inverse forward", list(I.transformcoordinates(vec(c, v))), w)
    c.eq("inverse of inverse", old(c, I.inverse(), v), w)
    c.eq("unchanged", old(c, A, v), w)
    A.inverse_inplace()
    c.eq("in place", old(c, A, w), v)


@contract("C06", functions=[F + "_transformcoordinates"])
def coordinates(c):
    """several points and two-component coordinates"""
    t = c.choice("A", TYPES)
    A, MA = make(c, "A", t)
    P = [[c.real("x%d" % i, -50, 50), c.real("y%d" % i, -50, 50), 1] for i in range(3)]
    X = vec(c, P).T
    want = np.array([app(MA, p) for p in P], dtype=object if c.symbolic else float).T
    c.eq("points", [list(r) for r in A.transformcoordinatesinverse(X)], [list(r) for r in want])
    if t == "translation":
        c.eq("two components", list(A.transformcoordinatesinverse(vec(c, P[0][:2]))), list(want[:2, 0]))
        c.eq("two components, points", [list(r) for r in A.transformcoordinatesinverse(X[:2])], [list(r) for r in want[:2]])


@contract("C06", functions=[F + "new_frame", F + "new_frame_inplace"], split=4)
def frame(c):
    """the same transformation seen from another frame"""
    ta = c.choice("A", AFF)
    tb = c.choice("B", ["translation", "similarity", "affine"])
    A, MA = make(c, "A", ta)
    B, MB = make(c, "B", tb)
    v = coord(c)
    # Xold = A.Xnew, Xold = B.Xold', Xnew = B.Xnew'
    xnew = app(MB, v)
    xold = app(MA, xnew)
    if c.choice("inplace", [False, True]):
        A.new_frame_inplace(B)
        C = A
    else:
        C = A.new_frame(B)
        c.eq("unchanged", old(c, A, v), app(MA, v))
    c.eq("frame", app(MB, old(c, C, v)), xold)
    c.eq("frame unchanged", old(c, B, v), app(MB, v))


@contract("C06", functions=[F + x for x in ("settranslation", "gettranslation", "setlinear", "getlinear", "setaffine", "getaffine", "setprojective", "getprojective", "setidentity")])
def parts(c):
    """what is set is read back, the rest is kept"""
    t = c.choice("A", TYPES)
    A, MA = make(c, "A", t)
    op = c.choice("part", ["translation", "xy", "linear", "affine", "projective", "identity"])
    lin = [[c.real("l%d%d" % (i, j), -2, 2) for j in range(2)] for i in range(2)]
    trn = [c.real("t%d" % i, -20, 20) for i in range(2)]
    prj = [c.real("p%d" % i, -1, 1) for i in range(2)] + [1]
    want = [list(r) for r in MA]
    if op in ("translation", "xy"):
        if op == "xy":
            A.settranslation(*trn)
        else:
            A.settranslation(trn)
        want[0][2], want[1][2] = trn
    elif op == "linear":
        A.setlinear(lin)
        want[0][:2], want[1][:2] = lin
    elif op == "affine":
        A.setaffine([lin[0] + [trn[0]], lin[1] + [trn[1]]])
        want[:2] = [lin[0] + [trn[0]], lin[1] + [trn[1]]]
    elif op == "projective":
        want = [lin[0] + [trn[0]], lin[1] + [trn[1]], prj]
        A.setprojective(want)
        c.holds("type", A.transfotype == TT.projective)
    else:
        A.setidentity()
        want = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        c.holds("identity", [A.isidentity(), A.islinearidentity(), A.isprojidentity()])
    rows = lambda M: [list(r) for r in M]
    c.eq("translation", list(A.gettranslation()), [want[0][2], want[1][2]])
    c.eq("linear", rows(A.getlinear()), [want[0][:2], want[1][:2]])
    c.eq("affine", rows(A.getaffine()), want[:2])
    c.eq("projective", rows(A.getprojective()), want)
    c.eq("homography", rows(A.getnumpyhomography()), want)


@contract("C06", functions=[F + "setrigid", F + "getrigid"])
def rigid(c):
    """angle and translation of a rigid transformation"""
    t = c.choice("type", TYPES)
    a = c.real("angle", -3, 3)
    tx, ty = c.real("tx", -20, 20), c.real("ty", -20, 20)
    A = new(c, t)
    A.setrigid(a, tx, ty)
    f = funcs if c.symbolic else math
    co, si = f.cos(a), f.sin(a)
    v = coord(c)
    c.eq("coordinates", old(c, A, v), [co * v[0] - si * v[1] + tx, si * v[0] + co * v[1] + ty, 1])
    if t != "projective":
        theta, x, y = A.getrigid()
        c.eq("translation", [x, y], [tx, ty])
        c.eq("angle", [f.cos(theta), f.sin(theta)], [co, si])


@contract("C06", functions=[F + x for x in ("copy", "__copy__", "fromtransform")])
def copies(c):
    """a copy is equal and independent"""
    t = c.choice("A", TYPES)
    A, MA = make(c, "A", t)
    how = c.choice("how", ["copy"] + TYPES)
    if how == "copy":
        C = A.copy()
    else:
        C = new(c, how)
        C.fromtransform(A)
    v = coord(c)
    c.eq("equal", old(c, C, v), app(MA, v))
    c.holds("type", C.transfotype == A.transfotype)
    s = [c.real("s0", -20, 20), c.real("s1", -20, 20)]
    C.settranslation(s)
    c.eq("original unchanged", old(c, A, v), app(MA, v))
    A.setidentity()
    want = [list(r) for r in MA]
    want[0][2], want[1][2] = s
    c.eq("copy unchanged", old(c, C, v), app(want, v))


class Replace:
    """stand-ins for the dependencies of the module, wherever it names them"""

    def __init__(self, table):
        self.table = table

    def __enter__(self):
        mod = sys.modules["spectrocrunch.align.transform"]
        self.saved = []
        for k, v in list(vars(mod).items()):
            for real, stub in self.table:
                if v is real:
                    self.saved.append((mod, k, v))
                    setattr(mod, k, stub)
        return self

    def __exit__(self, *a):
        for mod, k, v in self.saved:
            setattr(mod, k, v)


@contract("C06", functions=[F + "transformimage", F + "islinearidentity", F + "isprojidentity"])
def image_geometry(c):
    """each pixel is taken from the coordinate it came from"""
    import scipy.ndimage as nd

    t = c.choice("A", AFF)
    special = c.choice("special", ["general", "identity", "shift"])
    A, MA = make(c, "A", t)
    if special == "identity":
        A.setidentity()
        MA = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    elif special == "shift" and t != "translation":
        A.setlinear([[1, 0], [0, 1]])
        MA = [[1, 0, MA[0][2]], [0, 1, MA[1][2]], [0, 0, 1]]
    # x and y are the coordinates of a pixel of the result
    calls = []

    def shift(img, s, **kw):
        calls.append((np.array([[1, 0], [0, 1]]), [-s[0], -s[1]], kw))
        return "out"

    def affine(img, M, offset=0, **kw):
        calls.append((M, list(offset), kw))
        return "out"

    img = object()
    with Replace([(nd.shift, shift), (nd.affine_transform, affine)]):
        out = A.transformimage(img)
    if out is img:
        # returned as is: the transformation must be the identity
        c.eq("identity", MA, [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
        return
    c.holds("one interpolation", len(calls) == 1)
    M, off, kw = calls[0]
    x, y = c.real("x"), c.real("y")
    src = [M[0][0] * y + M[0][1] * x + off[0], M[1][0] * y + M[1][1] * x + off[1]]
    w = app(MA, [x, y, 1])
    c.eq("source coordinate (y, x)", src, [w[1], w[0]])
    c.holds("interpolation", kw.get("mode") == "constant" and kw.get("order") == 1)


@contract("C06", functions=[F + "transformimage"], mode="bounded", bound="random 6x7 images and transformations", samples=100)
def image_values(c):
    """pixel values of a transformed image"""
    t = c.choice("A", AFF)
    special = c.choice("special", ["general", "identity", "shift"])
    A, MA = make(c, "A", t)
    if special == "identity":
        A.setidentity()
        MA = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    else:
        trn = [c.real("sx", -3, 3), c.real("sy", -3, 3)]
        if c.choice("integer", [False, True]):
            trn = [round(s) for s in trn]
        A.settranslation(trn)
        lin = [[1, 0], [0, 1]]
        if special == "general":
            lin = [r[:2] for r in MA[:2]]
        elif t != "translation":
            A.setlinear(lin)
        MA = [lin[0] + [trn[0]], lin[1] + [trn[1]], [0, 0, 1]]
    img = np.array([[c.real("i%d%d" % (i, j), 0, 9) for j in range(7)] for i in range(6)])
    out = A.transformimage(img)
    for y in range(6):
        for x in range(7):
            xo, yo, _ = app(MA, [x, y, 1])
            i, j = math.floor(yo), math.floor(xo)
            m = 1e-6
            if xo < -m or yo < -m or xo > 6 + m or yo > 5 + m:
                c.holds("outside", bool(np.isnan(out[y, x])))
            elif m < xo < 6 - m and m < yo < 5 - m:
                di, dj = yo - i, xo - j
                w = img[i, j] * (1 - di) * (1 - dj) + img[i + 1, j] * di * (1 - dj) + img[i, j + 1] * (1 - di) * dj + img[i + 1, j + 1] * di * dj
                c.eq("interpolated", out[y, x], w, rtol=1e-6, atol=1e-6)


@contract("C06", functions=[F + x for x in ("fromkeypoints", "translation_fromkeypoints", "similarity_fromkeypoints", "affine_fromkeypoints", "_solvelinearsystem")])
def keypoints(c):
    """the transformation that relates the key points is recovered"""
    from scipy import stats

    t = c.choice("type", ["translation", "similarity", "affine"])
    _, M = make(c, "A", t)
    n = c.choice("n", [4, 6])
    dest = [[c.real("x%d" % i, -50, 50), c.real("y%d" % i, -50, 50), 1] for i in range(n)]
    src = [app(M, p) for p in dest]
    col = lambda P, k: np.array([p[k] for p in P], dtype=object if c.symbolic else float)
    if not c.symbolic:
        S = np.array([p[:2] for p in dest])
        c.assume(np.linalg.svd(S - S.mean(axis=0))[1][-1] > 5)
    L = new(c, t)
    args = col(src, 0), col(src, 1), col(dest, 0), col(dest, 1)
    if c.symbolic:
        truth = {"similarity": [M[0][0], M[1][0], M[0][2], M[1][2]], "affine": M[0] + M[1]}.get(t)

        def lstsq(A, b, *a, **kw):
            # contract: the solution of a consistent system of full rank is unique
            k = A.shape[1]
            b = b.reshape(-1)
            c.holds("size", A.shape == (2 * n, k) and len(b) == 2 * n)
            # which unknown is which: the order used by the code is found from its equations
            sol = order_solution(A, truth)
            for i in range(2 * n):
                c.eq("equation", sum(A[i][j] * sol[j] for j in range(k)), b[i])
            return np.array(sol, dtype=object).reshape(k, 1)

        def order_solution(A, truth):
            return truth

        class Stats:
            @staticmethod
            def trim_mean(x, p, *a, **kw):
                for i in range(1, len(x)):
                    c.eq("equal displacements", x[i], x[0])
                return x[0]

        with Replace([(T.lstsq if hasattr(T, "lstsq") else None, lstsq), (stats, Stats), (stats.trim_mean, Stats.trim_mean)]):
            L.fromkeypoints(*args)
    else:
        L.fromkeypoints(*args)
    c.eq("transformation", [list(r) for r in L.getnumpyhomography()], M, rtol=1e-5, atol=1e-5)


@contract("C06", functions=[F + "rigid_fromkeypoints", F + "centroid"], mode="bounded", bound="random rotations, translations and 4 to 12 key points", samples=150)
def keypoints_rigid(c):
    """the rotation and translation that relate the key points are recovered"""
    a, tx, ty = c.real("a", -3.1, 3.1), c.real("tx", -50, 50), c.real("ty", -50, 50)
    n = c.int("n", 4, 12)
    M = [[math.cos(a), -math.sin(a), tx], [math.sin(a), math.cos(a), ty], [0, 0, 1]]
    dest = np.array([[c.real("x%d" % i, -50, 50), c.real("y%d" % i, -50, 50), 1] for i in range(n)]).T
    c.assume(np.linalg.svd(dest[:2] - dest[:2].mean(axis=1)[:, None])[1][-1] > 5)
    src = np.dot(np.array(M), dest)
    L = new(c, "rigid")
    L.fromkeypoints(src[0], src[1], dest[0], dest[1])
    c.eq("transformation", [list(r) for r in L.getnumpyhomography()], M, rtol=1e-5, atol=1e-5)
