"""C20 Fourier transforms"""
import cmath
import math
import numpy as np
from dv import funcs
from dv.engine import contract, bind
from dv.shim import Replace

FT = bind("spectrocrunch.math.ft:")
F = "math/ft.py:"
B = ("spectrocrunch.math.ft",)

PROPERTY = {
    "title": "Fourier transforms, frequencies and shifts follow one convention",
    "statement": "For every number of points the frequencies are those of the chosen convention (each of the n frequencies once, zero first or centered), and shifting the zero frequency to the middle and back gives the original. "
    "For both normalization conventions the inverse transform recovers the data, in one and two dimensions and for any sampling distance; the matrix form and the fast form agree, and a sub-region or upsampled inverse evaluates the same trigonometric sum at the requested coordinates.",
    "over": ["inputs"],
    "for_all": "all sizes for frequencies and shifts; all data for transforms",
    "why": "Tests use sizes 4 and 5 and random data; image alignment relies on odd and even sizes, rectangular images and sub-region transforms.",
    "files": ["math/ft.py"],
    "mechanism": [
        ("frequency convention", "math/ft.py: fft_freqind, fftfreq"),
        ("zero frequency in the middle", "math/ft.py: fftshift, ifftshift"),
        ("matrix transforms", "math/ft.py: _dft, _dft2"),
    ],
}
META = {
    "level": "proof",
    "explanation": "sizes are symbolic integers for frequencies and shifts; transforms are proved for all data of fixed small sizes.",
    "trusted": ["numpy.fft is the discrete Fourier transform"],
    "assumptions": [],
}
CONV = ["numpy", "idl"]


def convention(c):
    return getattr(FT.fftConvention, c.choice("convention", CONV))


def limits(n, idl):
    """lowest and highest frequency index"""
    h = n // 2
    if idl:
        return (-h + 1 if n % 2 == 0 else -h), h
    return -h, (h - 1 if n % 2 == 0 else h)


@contract("C20", functions=[F + "fft_freqind"], builtins=B)
def frequency_range(c):
    """lowest and highest frequency"""
    conv = convention(c)
    n = c.size("n", 1, 12)
    lo, hi = FT.fft_freqind(n, freqconvention=conv)
    a, b = limits(n, conv == FT.fftConvention.idl)
    c.eq("range", [lo, hi], [a, b])
    c.eq("number", hi - lo + 1, n)


@contract("C20", functions=[F + "fftfreq", F + "fft_freqind"], builtins=B)
def frequencies(c):
    """every frequency once"""
    conv = convention(c)
    centered = c.bool("centered")
    n = c.size("n", 1, 12)
    d = c.pos("d", 0.1, 3)
    x = FT.fftfreq(n, d, centered=centered, freqconvention=conv)
    lo, hi = limits(n, conv == FT.fftConvention.idl)
    c.eq("size", x.shape[0], n)
    k = c.int("k", 0, None) if c.symbolic else c.int("k", 0, 11)
    c.assume(k < n)
    ref = lo + k if centered else (k if k <= hi else k - n)
    c.eq("frequency", x[k] * n * d, ref)


@contract("C20", functions=[F + "fftshift", F + "ifftshift", F + "fftfreq"], builtins=B)
def shifts(c):
    """zero frequency in the middle and back"""
    conv = convention(c)
    n = c.size("n", 1, 12)
    x = FT.fftfreq(n, 1, freqconvention=conv)
    y = FT.fftfreq(n, 1, centered=True, freqconvention=conv)
    c.eq("center", FT.fftshift(x, freqconvention=conv), y)
    c.eq("first", FT.ifftshift(y, freqconvention=conv), x)
    f = c.fun("f", n)
    c.eq("round trip", FT.ifftshift(FT.fftshift(f, freqconvention=conv), freqconvention=conv), f)
    c.eq("round trip 2", FT.fftshift(FT.ifftshift(f, freqconvention=conv), freqconvention=conv), f)


@contract("C20", functions=[F + "fftshift", F + "ifftshift"], builtins=B)
def shifts_images(c):
    """images of any size"""
    conv = convention(c)
    n, m = c.size("n", 1, 6), c.size("m", 1, 6)
    f = c.fun("f", n, m)
    g = FT.fftshift(f, freqconvention=conv)
    c.eq("round trip", FT.ifftshift(g, freqconvention=conv), f)
    c.eq("shape", list(g.shape), [n, m])
    i, j = (c.int("i", 0), c.int("j", 0)) if c.symbolic else (c.int("i", 0, 5), c.int("j", 0, 5))
    c.assume(i < n)
    c.assume(j < m)
    (a, _), (b, _) = (limits(k, conv == FT.fftConvention.idl) for k in (n, m))
    c.eq("position", g[(i - a) % n, (j - b) % m], f[i, j])


TRANS = [F + x for x in ("_dft", "_realspace", "fft", "ifft", "fftfreq")]


@contract("C20", functions=TRANS, mode="bounded", samples=120, bound="120 random signals of 1 to 9 points")
def transform(c):
    """definition, inverse and agreement of both implementations"""
    conv = convention(c)
    idl = conv == FT.fftConvention.idl
    n = c.int("n", 1, 9)
    d = c.choice("d", [1, 0.5, 2.5])
    f = c.fun("re", n) + 1j * c.fun("im", n)
    kw = {"normconvention": conv}
    lo, hi = limits(n, False)
    for centered in (False, True):
        F1 = FT.fft(f, dx=d, centered=centered, **kw)
        ks = list(range(lo, hi + 1)) if centered else list(range(0, hi + 1)) + list(range(lo, 0))
        ref = [sum(f[j] * cmath.exp(-2j * math.pi * j * k / n) for j in range(n)) / (n if idl else 1) for k in ks]
        c.eq("definition", F1, ref, atol=1e-8)
        c.eq("inverse", FT.ifft(F1, dx=d, centered=centered, **kw), f, atol=1e-8)
        c.eq("given frequencies", FT.fft(f, dx=d, u=FT.fftfreq(n, d, centered=centered), **kw), F1, atol=1e-8)
    F1 = FT.fft(f, **kw)
    x0 = c.int("x0", 0, 8)
    x1 = c.int("x1", 0, 8)
    c.assume(x0 <= x1 < n)
    c.eq("region", FT.ifft(F1, x0=x0, x1=x1, **kw), f[x0 : x1 + 1], atol=1e-8)
    c.eq("until", FT.ifft(F1, x1=x1, **kw), f[: x1 + 1], atol=1e-8)
    c.eq("from", FT.ifft(F1, x0=x0, **kw), f[x0:], atol=1e-8)
    c.eq("period", FT.ifft(F1, u=FT.fftfreq(n), x0=n, x1=2 * n - 1, **kw), f, atol=1e-8)
    up = c.int("up", 2, 4)
    g = FT.ifft(F1, x0=-up, x1=up * (n - 1), u=FT.fftfreq(n, d=up), **kw)
    s = 1 if idl else n
    fr = FT.fftfreq(n)
    ref = [sum(F1[k] * cmath.exp(2j * math.pi * fr[k] * x / up) for k in range(n)) / s for x in range(-up, up * (n - 1) + 1)]
    c.eq("upsampled", g, ref, atol=1e-8)
    c.eq("upsampled points", g[up::up], f, atol=1e-8)


@contract("C20", functions=[F + x for x in ("_dft2", "_realspace", "fft2", "ifft2", "fftfreq", "fftshift")], mode="bounded", samples=120, bound="120 random images of 1x1 to 6x7 points")
def transform_images(c):
    """the same in two dimensions"""
    conv = convention(c)
    idl = conv == FT.fftConvention.idl
    n, m = c.int("n", 1, 6), c.int("m", 1, 7)
    dx, dy = c.choice("dx", [1, 0.5]), c.choice("dy", [1, 2.5])
    f = c.fun("re", n, m) + 1j * c.fun("im", n, m)
    kw = {"normconvention": conv}

    def rows(a, g):
        return np.array([g(r) for r in a])

    ref = rows(rows(f, lambda r: FT.fft(r, dx=dx, **kw)).T, lambda r: FT.fft(r, dx=dy, **kw)).T
    F2 = FT.fft2(f, dx=dx, dy=dy, **kw)
    c.eq("separable", F2, ref, atol=1e-7)
    c.eq("inverse", FT.ifft2(F2, dx=dx, dy=dy, **kw), f, atol=1e-7)
    F3 = FT.fft2(f, dx=dx, dy=dy, centered=True, **kw)
    c.eq("centered", F3, FT.fftshift(F2), atol=1e-7)
    c.eq("centered inverse", FT.ifft2(F3, dx=dx, dy=dy, centered=True, **kw), f, atol=1e-7)
    F2 = FT.fft2(f, **kw)
    x0, x1, y0, y1 = (c.int(k, 0, 6) for k in ("x0", "x1", "y0", "y1"))
    c.assume(x0 <= x1 < m and y0 <= y1 < n)
    c.eq("region", FT.ifft2(F2, x0=x0, x1=x1, y0=y0, y1=y1, **kw), f[y0 : y1 + 1, x0 : x1 + 1], atol=1e-7)
    for region in ({"x0": x0}, {"x1": x1}, {"y0": y0}, {"y1": y1}):
        g = FT.ifft2(F2, **dict(kw, **region))
        ref = f[region.get("y0", 0) : region.get("y1", n) + 1, region.get("x0", 0) : region.get("x1", m) + 1]
        c.eq("limit " + list(region)[0], g, ref, atol=1e-7)
    up = c.int("up", 2, 3)
    g = FT.ifft2(F2, x0=0, x1=up * m - 1, u=FT.fftfreq(m, d=up), y0=0, y1=up * n - 1, v=FT.fftfreq(n, d=up), **kw)
    c.eq("upsampled points", g[::up, ::up], f, atol=1e-7)
    c.eq("upsampled shape", list(g.shape), [up * n, up * m])


def dft(a, inverse=False, axes=(0,)):
    """contract of numpy.fft: the definition"""
    for ax in axes:
        n = a.shape[ax]
        w = np.array([[cmath.exp((2j if inverse else -2j) * math.pi * ((j * k) % n) / n) / (n if inverse else 1) for k in range(n)] for j in range(n)])
        a = np.moveaxis(np.tensordot(w, a, axes=(1, ax)), 0, ax)
    return a


def fft_contract(c):
    return Replace(
        c,
        [
            (np.fft, "fft", lambda a: dft(a)),
            (np.fft, "ifft", lambda a: dft(a, True)),
            (np.fft, "fft2", lambda a: dft(a, axes=(0, 1))),
            (np.fft, "ifft2", lambda a: dft(a, True, (0, 1))),
        ],
    )


def signal(c, name, *shape):
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        k = "_".join(map(str, ix))
        out[ix] = c.any("re%s%s" % (name, k), -5, 5) + 1j * c.any("im%s%s" % (name, k), -5, 5)
    return out if c.symbolic else out.astype(complex)


@contract("C20", functions=TRANS, builtins=B, split=5, assumes=("1 to 5 points",))
def transform_all_data(c):
    """all signals of up to 5 points"""
    n = c.choice("n", [1, 2, 3, 4, 5])
    conv = convention(c)
    idl = conv == FT.fftConvention.idl
    d = c.choice("d", [1, 0.5])
    kw = {"normconvention": conv}
    f = signal(c, "f", n)
    with fft_contract(c):
        F1 = FT.fft(f, dx=d, **kw)
        w = [cmath.exp(-2j * math.pi * k / n) for k in range(n)]
        c.eq("definition", list(F1), [sum(f[j] * w[j * k % n] for j in range(n)) / (n if idl else 1) for k in range(n)], atol=1e-8)
        c.eq("inverse", list(FT.ifft(F1, dx=d, **kw)), list(f), atol=1e-8)
        centered = FT.fft(f, dx=d, centered=True, **kw)
        c.eq("centered", list(centered), [F1[k] for k in range(limits(n, False)[0], limits(n, False)[1] + 1)], atol=1e-8)
        c.eq("centered inverse", list(FT.ifft(centered, dx=d, centered=True, **kw)), list(f), atol=1e-8)
        if n > 1:
            c.eq("region", list(FT.ifft(F1, x0=1, u=FT.fftfreq(n), **kw)), list(f[1:]), atol=1e-8)
            c.eq("until", list(FT.ifft(F1, x1=n - 2, **kw)), list(f[:-1]), atol=1e-8)
            c.eq("from", list(FT.ifft(F1, x0=1, **kw)), list(f[1:]), atol=1e-8)
            c.eq("upsampled", list(FT.ifft(F1, x0=0, x1=2 * n - 1, u=FT.fftfreq(n, 2), **kw))[::2], list(f), atol=1e-8)


@contract("C20", functions=[F + x for x in ("_dft2", "_realspace", "fft2", "ifft2", "fftfreq")], builtins=B, split=4, assumes=("1x3, 2x2, 2x3 and 3x2 points",))
def transform_all_images(c):
    """all small images"""
    n, m = c.choice("shape", [(1, 3), (2, 2), (2, 3), (3, 2)])
    conv = convention(c)
    idl = conv == FT.fftConvention.idl
    dx, dy = c.choice("d", [(1, 1), (0.5, 1), (1, 2), (2, 0.5)])
    kw = {"normconvention": conv}
    f = signal(c, "f", n, m)
    with fft_contract(c):
        F2 = FT.fft2(f, dx=dx, dy=dy, **kw)
        s = n * m if idl else 1
        ref = [[sum(f[y, x] * cmath.exp(-2j * math.pi * (u * x / m + v * y / n)) for y in range(n) for x in range(m)) / s for u in range(m)] for v in range(n)]
        c.eq("definition", [list(r) for r in F2], ref, atol=1e-8)
        c.eq("inverse", [list(r) for r in FT.ifft2(F2, dx=dx, dy=dy, **kw)], [list(r) for r in f], atol=1e-8)
        g = FT.ifft2(F2, x0=1, y0=n - 1, u=FT.fftfreq(m), v=FT.fftfreq(n), **kw)
        c.eq("region", [list(r) for r in g], [list(r) for r in f[n - 1 :, 1:]], atol=1e-8)
        for k, v, ref in (("x0", m - 1, f[:, m - 1 :]), ("x1", 0, f[:, :1]), ("y0", n - 1, f[n - 1 :]), ("y1", 0, f[:1])):
            g = FT.ifft2(F2, **dict(kw, **{k: v}))
            c.eq("limit " + k, [list(r) for r in g], [list(r) for r in ref], atol=1e-8)
