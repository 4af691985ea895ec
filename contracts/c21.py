"""C21 linear fits"""
import math
import numpy as np
from dv import funcs, vec
from dv.engine import contract, bind

FI = bind("spectrocrunch.math.fit1d:")
LI = bind("spectrocrunch.math.linalg:")
F = "math/fit1d.py:"
B = ("spectrocrunch.math.fit1d",)

PROPERTY = {
    "title": "Linear fits minimize the residual and report the right parameter errors",
    "statement": "Every linear fit (general matrix, straight line, line through the origin) returns the unique solution of the normal equations, whichever implementation is used, and ignores points with NaN where it says so; Cramer's rule solves a non-singular linear system and refuses a singular one. "
    "The reported errors are the square roots of the diagonal of M.COV(e).M^T with M=(A^T.A)^-1.A^T, for given variances or covariances of the data, and otherwise for the variance estimated from the residual sum of squares with the number of points minus the number of parameters as degrees of freedom.",
    "over": ["inputs"],
    "for_all": "all data of any length, any variances, 1 to 3 parameters",
    "why": "Tests compare two implementations on one data set of 15 points to a few digits; calibration of diodes and decomposition of spectra rely on the values and errors for any data.",
    "files": ["math/fit1d.py", "math/linalg.py"],
    "mechanism": [
        ("solution and errors of linear systems", "math/fit1d.py: lstsq, lstsq_std, lstsq_cov"),
        ("straight lines", "math/fit1d.py: linfit, linfit2, linfit_zerointercept, linfit_zerointercept2, nanlinfit"),
        ("Cramer's rule", "math/linalg.py: cramer"),
    ],
}
META = {
    "level": "proof",
    "explanation": "the number of points is a symbolic integer without upper bound and the data are arbitrary reals.",
    "trusted": ["numpy.linalg.lstsq returns the solution of the normal equations", "numpy.linalg.inv and det are exact"],
    "assumptions": ["the columns of the matrix are linearly independent"],
}


def points(c, names, pos=(), minlen=4, block="n"):
    return [c.vec(k, block, pos=k in pos, minlen=minlen) for k in names]


def cols(c, *v):
    return vec.SMat(v) if c.symbolic else np.column_stack(v)


def independent(c, *v):
    """Gram determinant is positive"""
    G = [[(a * b).sum() for b in v] for a in v]
    d = det(G)
    for i in range(len(v)):
        c.positive(G[i][i])
    c.positive(d, 0 if c.symbolic else 1e-3 * math.prod(G[i][i] for i in range(len(v))))


def det(G):
    if len(G) == 1:
        return G[0][0]
    return sum((-1) ** j * G[0][j] * det([r[:j] + r[j + 1 :] for r in G[1:]]) for j in range(len(G)))


def matrix(c, name, m, n):
    return c.mat([[c.any("%s%d%d" % (name, i, j), -3, 3) for j in range(n)] for i in range(m)])


def one(c, x):
    return x * 0 + 1


def normal(c, name, A, p, y):
    r = 0 - y
    for a, k in zip(A, p):
        r = r + a * k
    c.eq(name + " normal equations", [(a * r).sum() for a in A], [0] * len(A), atol=1e-7)
    return (r * r).sum()


@contract("C21", functions=[F + "lstsq"], builtins=B)
def solution(c):
    """general linear system"""
    n = c.choice("parameters", [1, 2, 3])
    v = points(c, "uvw"[:n] + "y", minlen=n + 1)
    A, y = v[:-1], v[-1]
    independent(c, *A)
    p = FI.lstsq(cols(c, *A), y)
    c.eq("number of parameters", len(p), n)
    normal(c, "lstsq", A, p, y)


def errors_from(c, name, std, gram, wgram):
    """std^2 = diag(G^-1 W G^-1), G the Gram matrix and W the weighted one (2 parameters at most)"""
    if len(gram) == 1:
        c.eq(name + " error", std[0] ** 2 * gram[0][0] ** 2, wgram[0][0])
        return
    (a, b), (_, d) = gram
    D = a * d - b * b
    (p, q), (_, r) = wgram
    c.eq(name + " error 1", std[0] ** 2 * D**2, d * d * p - 2 * d * b * q + b * b * r, rtol=1e-5)
    c.eq(name + " error 2", std[1] ** 2 * D**2, b * b * p - 2 * b * a * q + a * a * r, rtol=1e-5)


def grams(A, w=None):
    G = [[(a * b).sum() for b in A] for a in A]
    return G if w is None else (G, [[(a * b * w).sum() for b in A] for a in A])


def positive(c, A, w):
    """the variances are not negative"""
    G = grams(A)
    if len(A) == 1:
        c.squares((A[0], w))
        return
    c.squares((A[0] * G[1][1] - A[1] * G[0][1], w))
    c.squares((A[1] * G[0][0] - A[0] * G[0][1], w))


def positive_residual(c, A, y):
    G = grams(A)
    D = det(G)
    v = [(a * y).sum() for a in A]
    if len(A) == 1:
        c.squares((A[0] * v[0] - y * D, 1))
    else:
        m, b = v[0] * G[1][1] - v[1] * G[0][1], v[1] * G[0][0] - v[0] * G[0][1]
        c.squares((A[0] * m + A[1] * b - y * D, 1))


def residual(A, p, y):
    r = 0 - y
    for a, k in zip(A, p):
        r = r + a * k
    return (r * r).sum()


@contract("C21", functions=[F + "lstsq", F + "lstsq_std", F + "lstsq_cov"], builtins=B)
def errors_given(c):
    """errors from the variances of the data"""
    n = c.choice("parameters", [1, 2])
    v = points(c, "uv"[:n] + "ys", pos="s", minlen=n + 1)
    A, y, s = v[:-2], v[-2], v[-1]
    independent(c, *A)
    positive(c, A, s)
    p, std = FI.lstsq(cols(c, *A), y, errors=True, vare=s)
    normal(c, "lstsq", A, p, y)
    errors_from(c, "lstsq", std, *grams(A, s))
    std = FI.lstsq_std(cols(c, *A), vare=s)
    errors_from(c, "std", std, *grams(A, s))
    cov = FI.lstsq_cov(cols(c, *A), vare=s)
    errors_from(c, "cov", [sqrt(c, cov[i][i]) for i in range(n)], *grams(A, s))


def sqrt(c, x):
    return funcs.sqrt(x) if c.symbolic else math.sqrt(x)


@contract("C21", functions=[F + "lstsq", F + "lstsq_std", F + "lstsq_cov"], builtins=B)
def errors_estimated(c):
    """errors from the residuals"""
    n = c.choice("parameters", [1, 2])
    v = points(c, "uv"[:n] + "y", minlen=n + 1)
    A, y = v[:-1], v[-1]
    independent(c, *A)
    positive_residual(c, A, y)
    p, std = FI.lstsq(cols(c, *A), y, errors=True)
    dof = y.size - n
    G = grams(A)
    rss = residual(A, p, y)
    D = det(G)
    for i in range(n):
        minor = G[1 - i][1 - i] if n == 2 else 1
        c.eq("variance %d" % i, std[i] ** 2 * D * dof, minor * rss, rtol=1e-5, atol=1e-8)


LINE = [F + x for x in ("linfit", "linfit2", "nanlinfit", "nanlinfit2", "xyremovenan", "lstsq", "lstsq_std", "lstsq_cov")]
NAMES = ["linfit", "linfit2", "nanlinfit", "nanlinfit2"]


@contract("C21", functions=LINE, builtins=B)
def line(c):
    """straight line, with errors"""
    name = c.choice("function", NAMES)
    x, y = points(c, "xy", minlen=4)
    A = [x, one(c, x)]
    independent(c, *A)
    positive_residual(c, A, y)
    f = getattr(FI, name)
    p = f(x, y)
    normal(c, name, A, p, y)
    q, std = f(x, y, errors=True)
    c.eq("same solution", list(q), list(p))
    n, D = y.size, det(grams(A))
    rss = residual(A, p, y)
    c.eq("slope error", std[0] ** 2 * D * (n - 2), n * rss, rtol=1e-4, atol=1e-7)
    c.eq("intercept error", std[1] ** 2 * D * (n - 2), (x * x).sum() * rss, rtol=1e-4, atol=1e-7)


@contract("C21", functions=LINE, builtins=B)
def line_weighted(c):
    """straight line with given variances"""
    x, y, s = points(c, "xys", pos="s", minlen=4)
    A = [x, one(c, x)]
    independent(c, *A)
    positive(c, A, s)
    p, std = FI.linfit(x, y, errors=True, vare=s)
    normal(c, "linfit", A, p, y)
    errors_from(c, "linfit", std, *grams(A, s))


@contract("C21", functions=[F + "linfit_zerointercept", F + "linfit_zerointercept2", F + "lstsq", F + "lstsq_std", F + "lstsq_cov"], builtins=B)
def line_through_origin(c):
    """line through the origin"""
    name = c.choice("function", ["linfit_zerointercept", "linfit_zerointercept2"])
    x, y, s = points(c, "xys", pos="s", minlen=3)
    independent(c, x)
    positive(c, [x], s)
    positive_residual(c, [x], y)
    f = getattr(FI, name)
    m = f(x, y)
    normal(c, name, [x], [m], y)
    m2, std = f(x, y, errors=True)
    c.eq("same solution", m2, m)
    c.eq("slope error", std**2 * (x * x).sum() * (y.size - 1), residual([x], [m], y), rtol=1e-5, atol=1e-8)
    if name == "linfit_zerointercept":
        m2, std = f(x, y, errors=True, vare=s)
        c.eq("same solution weighted", m2, m)
        errors_from(c, "weighted", [std], *grams([x], s))


def with_nan(c):
    """points of which some are missing a coordinate, any number of each"""
    x, y = points(c, "xy", minlen=4)
    x2, y2 = points(c, ["x2", "y2"], minlen=1, block="m")
    x3, y3 = points(c, ["x3", "y3"], minlen=1, block="k")
    if c.symbolic:
        nan = lambda v: v.map(lambda e: type(e)(e.e, vec.z3.BoolVal(True)))
        return x, y, vec.append(x2, x, nan(x3)), vec.append(nan(y2), y, y3)
    X = np.concatenate([x2, x, x3 * np.nan])
    Y = np.concatenate([y2 * np.nan, y, y3])
    i = c.permutation(len(X)) if hasattr(c, "permutation") else list(range(len(X)))[::-1]
    return x, y, X[i], Y[i]


@contract("C21", functions=LINE, builtins=B)
def missing_points(c):
    """points with NaN are ignored"""
    x, y, X, Y = with_nan(c)
    A = [x, one(c, x)]
    independent(c, *A)
    positive_residual(c, A, y)
    for name in ("nanlinfit", "nanlinfit2"):
        f = getattr(FI, name)
        p = f(X, Y)
        normal(c, name, A, p, y)
        q, std = f(X, Y, errors=True)
        r, std2 = f(x, y, errors=True)
        c.eq(name + " solution", [list(q), list(p)], [list(r), list(r)])
        c.eq(name + " errors", [s**2 for s in std], [s**2 for s in std2], rtol=1e-5, atol=1e-9)


def symmetric(c, name, m):
    """arbitrary symmetric matrix, a covariance matrix when concrete"""
    if c.symbolic:
        x = {(i, j): c.any("%s%d%d" % (name, i, j), -1, 1) for i in range(m) for j in range(i, m)}
        return c.mat([[x[min(i, j), max(i, j)] for j in range(m)] for i in range(m)])
    L = matrix(c, name, m, m)
    return L.dot(L.T) + np.identity(m)


@contract("C21", functions=[F + "lstsq_cov", F + "lstsq_std"], split=4)
def square(c):
    """covariance of the solution for correlated data, and for as many points as parameters"""
    m, n = c.choice("shape", [(1, 1), (2, 2), (3, 1), (3, 2)])
    what = c.choice("error", ["variances", "covariances"])
    A = matrix(c, "A", m, n)
    G = A.T.dot(A)
    d = det([list(r) for r in G])
    c.positive(d, 0.05)
    adj = c.mat([[1]]) if n == 1 else c.mat([[G[1, 1], -G[0, 1]], [-G[1, 0], G[0, 0]]])
    N = adj.dot(A.T)  # M = N/d
    if what == "variances":
        s = c.mat([[c.pos("s%d" % i, 0.1, 2) for i in range(m)]])[0]
        kw, ref = {"vare": s}, (N * s).dot(N.T)
    else:
        C = symmetric(c, "C", m)
        kw, ref = {"cove": C}, N.dot(C).dot(N.T)
    cov = FI.lstsq_cov(A, **kw)
    c.eq("covariance", cov * d**2, ref, rtol=1e-5, atol=1e-7)


@contract("C21", functions=[F + "cor_from_cov"])
def correlation(c):
    """correlations from covariances"""
    n = c.choice("parameters", [1, 2, 3])
    C = symmetric(c, "C", n)
    for i in range(n):
        c.assume(C[i, i] > 0)
    R = FI.cor_from_cov(C)
    c.eq("diagonal", [R[i, i] for i in range(n)], [1] * n)
    c.eq("scaled", [[R[i, j] * sqrt(c, C[i, i]) * sqrt(c, C[j, j]) for i in range(n)] for j in range(n)], C)


@contract("C21", functions=["math/linalg.py:cramer"])
def cramer(c):
    """solution of a linear system, singular systems are refused"""
    n = c.choice("size", [1, 2, 3])
    A, b = matrix(c, "A", n, n), matrix(c, "b", n, 1)[:, 0]
    if c.choice("singular", [False, True]):
        if not c.symbolic:
            A = np.round(A)  # without rounding errors
        A[n - 1] = 2 * A[0] if n > 1 else 0 * A[0]
        if not c.symbolic and np.linalg.det(A) != 0:
            A *= 0
        c.raises("singular", RuntimeError, lambda: LI.cramer(A, b))
        return
    d = det([list(r) for r in A])
    c.assume(d != 0 if c.symbolic else abs(d) > 0.1)
    x = LI.cramer(A, b)
    c.eq("solution", A.dot(x), b, atol=1e-8)
    c.eq("shape", list(np.shape(x)), [n])


@contract("C21", functions=[F + "lstsq_nonnegative", F + "lstsq_bound", F + "lstsq_std"], mode="bounded", samples=60, bound="60 random systems of 3 parameters and 4 to 9 points")
def constrained(c):
    """optimality of constrained solutions"""
    v = points(c, "uvwy", minlen=4)
    A, y = np.column_stack(v[:-1]), v[-1]
    independent(c, *v[:-1])
    lb, ub = -c.real("lb", 0, 1), c.real("ub", 0, 1)
    for name, p, lo, hi in (("nonnegative", FI.lstsq_nonnegative(A, y), 0, np.inf), ("bound", FI.lstsq_bound(A, y, lb, ub), lb, ub)):
        g = A.T.dot(A.dot(p) - y)
        tol = 1e-4
        c.holds(name + " inside", all(p >= lo - tol) and all(p <= hi + tol))
        for x, k in zip(p, g):
            # the residual does not decrease in any allowed direction
            if x > lo + tol:
                c.holds(name + " not too large", k <= 1e-2)
            if x < hi - tol:
                c.holds(name + " not too small", k >= -1e-2)
    s = np.array([c.real("s%d" % i, 0.1, 2) for i in range(len(y))])
    for args in ((FI.lstsq_nonnegative, ()), (FI.lstsq_bound, (lb, ub))):
        p, std = args[0](A, y, *args[1], errors=True, vare=s)
        c.eq("errors", std**2, np.diag(FI.lstsq_cov(A, vare=s)), rtol=1e-6)


@contract("C21", functions=[F + "fitgaussian", F + "guess_gaussian", F + "leastsq"], mode="bounded", samples=60, bound="60 random profiles")
def gaussian_profile(c):
    """a Gaussian profile is recovered from its samples at any positions"""
    x0, s, area = c.real("x0", -3, 3), c.real("s", 0.5, 1.5), c.real("area", 0.5, 50)
    n = c.int("n", 40, 80)
    x = np.linspace(-12, 12, n)
    y = FI.gaussian(x, x0, s, area)
    c.eq("area under the profile", y.sum() * (x[1] - x[0]), area, rtol=1e-4)
    p, ok = FI.fitgaussian(x, y)
    c.holds("success", bool(ok))
    c.eq("parameters", list(np.abs(p[1:])) + [p[0]], [s, area, x0], rtol=1e-3, atol=1e-3)


@contract("C21", functions=[F + "lstsq_std_indep"], builtins=B, mode="bounded", samples=60, bound="60 random systems")
def independent_errors(c):
    """errors of independent parameters"""
    v = points(c, ["u", "v"], minlen=4)
    A = np.column_stack(v)
    independent(c, *(x * x for x in v))
    vx = np.array([c.real("a", 0.1, 2), c.real("b", 0.1, 2)])
    c.eq("errors", FI.lstsq_std_indep(A, vare=(A * A).dot(vx)) ** 2, vx)
    w, y = points(c, "wy", minlen=4)
    p = FI.lstsq(A, y)
    with np.errstate(invalid="ignore"):
        got = FI.lstsq_std_indep(A, b=y, x=p)
    r = ((A.dot(p) - y) ** 2).sum() / (len(y) - 2)
    ref = FI.lstsq(A * A, np.full(len(y), r))
    if all(ref > 0):
        c.eq("estimated", got**2, ref)
    c.eq("reached", 1, 1)
