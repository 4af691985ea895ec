"""C15 correction of XRF spectra"""
import contextlib
import numpy as np
from unittest import mock
from dv import funcs
from dv.engine import contract, bind
from dv.shim import Replace

M = bind("spectrocrunch.io.xiaedf:")
F = "io/xiaedf.py:"
B = ("spectrocrunch.io.xiaedf",)

PROPERTY = {
    "title": "XIA spectra: dead-time correction, detector sum and normalization",
    "statement": "Spectra of a XIA image or stack are multiplied by ICR/OCR of the same pixel and detector (1 without statistics, for ICR below 1000, for a ratio below one or not finite), summed over the selected detectors when requested and divided by the normalization counter of the pixel (1 when zero). "
    "Indexing gives the corrected data which numpy indexing would give, whatever is indexed and at which level corrections happen; statistics and counters are those of the selected detectors. "
    "Excluding or including detectors selects spectra and statistics consistently.",
    "over": ["inputs", "configurations"],
    "for_all": "all counts, statistics and normalization values; combinations of corrections, detectors and indices are enumerated",
    "why": "Tests use statistics for which corrections are mostly the same for all pixels and compare with random indices.",
    "files": ["io/xiaedf.py", "utils/indexing.py"],
    "mechanism": [
        ("correction", "io/xiaedf.py: xiadata.__getitem__, deadtimecorrector, normalizer"),
        ("statistics of detectors", "io/xiaedf.py: xialine._getstats, statindices_used"),
        ("indexing of stacks", "utils/indexing.py: getitem, replacefull_transform"),
    ],
}
META = {
    "level": "proof",
    "explanation": "all counts, statistics and normalization values are symbolic; images have 2 rows, 2 columns, 2 channels and up to 4 detectors (enumerated combinations of corrections, detectors and indices).",
    "trusted": ["fabio reads the arrays and headers stored in EDF files"],
    "assumptions": ["counts and statistics are mathematical numbers"],
}


def equal(c, name, a, b):
    """same shape and values"""
    a, b = np.asarray(a), np.asarray(b)
    c.eq(name + " shape", list(a.shape), list(b.shape))
    if a.shape == b.shape:
        c.eq(name, list(a.flat), list(b.flat), rtol=1e-9)


@contract("C15", functions=[F + "deadtimecorrector"], builtins=B)
def deadtime(c):
    """dead-time correction factor"""
    icr = [c.real("icr%d" % i, 0, 5000) for i in range(2)]
    ocr = [c.pos("ocr%d" % i, 100, 5000) for i in range(2)]
    if c.choice("array", [True, False]):
        got = M.deadtimecorrector(c.obj(*icr), c.obj(*ocr))
    else:
        icr, ocr = icr[:1], ocr[:1]
        got = [M.deadtimecorrector(icr[0], ocr[0])]
    for g, i, o in zip(got, icr, ocr):
        one = (i < 1000) | (i < o)
        if one:
            c.eq("no correction", g, 1)
        else:
            c.eq("correction", g * o, i)
        c.holds("at least one", g >= 1)


@contract("C15", functions=[F + "deadtimecorrector"], mode="bounded", bound="random arrays with missing rates", samples=100)
def deadtime_missing(c):
    """dead-time correction without output count rate"""
    icr = np.array([c.choice("icr%d" % i, [0.0, 999.0, 1000.0, 2000.0, 1e6, np.nan]) for i in range(6)]).reshape(2, 3)
    ocr = np.array([c.choice("ocr%d" % i, [0.0, 500.0, 1500.0, np.nan]) for i in range(6)]).reshape(2, 3)
    got = M.deadtimecorrector(icr, ocr)
    for g, i, o in zip(got.flat, icr.flat, ocr.flat):
        c.eq("factor", g, i / o if i >= 1000 and o > 0 and i >= o else 1)
        c.eq("factor of a number", M.deadtimecorrector(i, o), g)


@contract("C15", functions=[F + "normalizer"], builtins=B)
def normalizers(c):
    """normalization"""
    v = c.real("v", -10, 10)
    if c.choice("zero", [False, True]):
        v = v * 0
    if c.choice("array", [True, False]):
        got = M.normalizer(c.obj(v, 3))
        c.eq("others", got[1], 3)
        got = got[0]
    else:
        got = M.normalizer(v)
    if v == 0:
        c.eq("zero", got, 1)
    else:
        c.eq("value", got, v)


NROW, NCOL, NCHAN = 2, 2, 2
DETECTORS = ["xia00", "xia02", "xiaS0"]
NUMBERS = [0, 1, 2]  # with statistics


class Image(object):
    """EDF file in memory"""

    def __init__(self, data, header):
        self.data, self.header = data, header
        self.shape, self.ndim = data.shape, data.ndim
        self.dtype = data.dtype.type

    def __getitem__(self, index):
        return self.data[index]


class Files(object):
    """files of images with arbitrary content"""

    def __init__(self, c, nmaps=1, numbered=False):
        self.c, self.numbered = c, numbered
        self.dtype = object if c.symbolic else float
        self.files, self.stats, self.ctr = {}, {}, {}
        self.nmaps = nmaps
        self.data = np.empty((nmaps, NROW, NCOL, NCHAN, len(DETECTORS)), dtype=self.dtype)
        self.rates = np.empty((nmaps, NROW, NCOL, 6, len(NUMBERS)), dtype=self.dtype)
        self.counters = np.empty((nmaps, NROW, NCOL, 2), dtype=self.dtype)
        numbers = [4, 2, 0] if numbered else NUMBERS
        self.numbers = numbers
        for m in range(nmaps):
            for r in range(NROW):
                for i, det in enumerate(DETECTORS):
                    name = "/scratch/sample_%s_%04d_0000_%04d.edf" % (det, m + 3, r)
                    a = self.array("d%d%d%d" % (m, r, i), (NCOL, NCHAN), 0, 1000)
                    self.data[m, r, :, :, i] = a
                    self.files[name] = Image(a, {})
                a = self.array("s%d%d" % (m, r), (NCOL, len(NUMBERS) * 6), 0, 5000)
                for i in range(len(NUMBERS)):
                    self.rates[m, r, :, :, i] = a[:, i * 6 : i * 6 + 6]
                header = {"xdet": " ".join(map(str, numbers))} if numbered else {}
                self.files["/scratch/sample_xiast_%04d_0000_%04d.edf" % (m + 3, r)] = Image(a, header)
            for i, ctr in enumerate(("arr_iodet", "arr_srcurrent")):
                a = self.array("c%d%d" % (m, i), (NROW, NCOL), 1, 10)
                self.counters[m, :, :, i] = a
                self.files["/scratch/sample_%s_%04d_0000.edf" % (ctr, m + 3)] = Image(a, {})

    def array(self, name, shape, lo, hi):
        a = np.empty(shape, dtype=self.dtype)
        for i, ind in enumerate(np.ndindex(*shape)):
            a[ind] = self.c.pos("%s_%d" % (name, i), max(lo, 0.5), hi)
        return a

    def rate(self, k, dets):
        """statistic k for detectors, None without statistics"""
        out = []
        for det in dets:
            num = det[3:]
            if num.isdigit():
                out.append(self.rates[..., k, self.numbers.index(int(num))])
            else:
                out.append(None)
        return out

    def expected(self, dets, dtcor, add, norm, func):
        """corrected spectra"""
        data = self.data[..., [DETECTORS.index(d) for d in dets]].copy()
        if dtcor:
            for i, (icr, ocr) in enumerate(zip(self.rate(2, dets), self.rate(3, dets))):
                if icr is not None:
                    f = factor(self.c, icr, ocr)
                    data[..., i] = data[..., i] * f[..., np.newaxis]
        if add:
            total = data[..., 0]
            for i in range(1, len(dets)):
                total = total + data[..., i]
            data = total[..., np.newaxis]
        if norm is not None:
            n = self.counters[..., 1]
            data = data / normalization(self.c, func(n))[..., np.newaxis, np.newaxis]
        return data


def apply(f, *args):
    out = np.empty(args[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(*[a[i] for a in args])
    return out


def positive(v, *args):
    funcs.ctx().add_fact(v > 0)


def factor(c, icr, ocr):
    if c.symbolic:
        return apply(lambda i, o: 1 if i is 0 else funcs.opaque("dtcor", i, o, facts=positive), icr, ocr)
    return np.where((icr < 1000) | (icr < ocr), 1, icr / ocr)


def normalization(c, norm):
    if c.symbolic:
        return apply(lambda n: funcs.opaque("norm", n, facts=positive), norm)
    return norm


@contextlib.contextmanager
def environment(c, files):
    """files in memory; contracts of the factors (proved in deadtime and normalizers)"""
    what = [(M, "deadtimecorrector", lambda icr, ocr: dtcor(icr, ocr)), (M, "normalizer", lambda n: normalization(c, n))]
    what.append((M.xiadata, "CORTYPE", object))
    what.append((M.xiadata, "XIASTYPE", object))

    def dtcor(icr, ocr):
        # without statistics: zeros
        return apply(lambda i, o: 1 if isinstance(i, (int, float)) else funcs.opaque("dtcor", i, o, facts=positive), icr, ocr)

    with mock.patch.object(M.edf, "edfimage", lambda f, **kw: files.files[f]):
        with Replace(c, what):
            yield


INDEX = [
    (slice(None),),
    (1,),
    (slice(None), 0),
    (Ellipsis, slice(0, 1), slice(None)),
    (Ellipsis, 1, slice(None)),
    (slice(None), [1, 0]),
    ([0, 1], [1, 0]),
    ([1], slice(None), [0]),
    (slice(1, None), slice(None, None, -1)),
    (np.newaxis, 0, slice(0, 1)),
    ([1, 1, 0],),
    (0, np.newaxis, [0, 1], slice(None), slice(None)),
    ([True, False], slice(None), 0),
]
DETINDEX = [(Ellipsis, 0), (0, Ellipsis, [1, 0]), ([0, 1], slice(None), slice(None), [1, 0]), (Ellipsis, slice(1, None)), (Ellipsis, 1, 0), (slice(None), [1, 0], 0, slice(0, 1))]


def selected(c):
    """excluded, included and used detectors"""
    return c.choice(
        "detectors",
        [
            ([], [], DETECTORS),
            ([0], [], ["xia02", "xiaS0"]),
            ([], ["xia00", 2], ["xia00", "xia02"]),
            (["S0"], [], ["xia00", "xia02"]),
            (["02"], ["xia02", "00", "xiaS0"], ["xia00", "xiaS0"]),
        ],
    )


FUNCS = [F + x for x in ("xiadata.__getitem__", "xiadata._getindexednormalizer", "xiadata._index_norm", "xiadata.extract_stat", "xiadata.sumdata", "xialine._getdata", "xialine._getstats", "xiadata.statindices_used", "xiacompound._getdata", "xiacompound._getstats")]
FUNCS += ["utils/indexing.py:" + x for x in ("getitem", "replacefull_transform", "axesorder_afterindexing", "expand", "replace")]


def source(c, files, nmaps):
    names = list(files.files)
    return M.xiastack_files(names) if nmaps > 1 else M.xiaimage_files(names)


def configure(c, obj, dtcor, add, norm, func, exclude, include):
    obj.dtcor(dtcor)
    obj.detectorsum(add)
    obj.norm(norm, func=func)
    obj.exclude_detectors = exclude
    obj.include_detectors = include


def double(x):
    return x * 2


def same(x):
    return x


def corrections(c, nmaps):
    files = Files(c, nmaps)
    dtcor, add = c.choice("dtcor", [True, False]), c.choice("sum", [False, True])
    norm = c.choice("norm", ["arr_srcurrent", None])
    exclude, include, dets = selected(c)
    want = files.expected(dets, dtcor, add, norm, double)
    if nmaps == 1:
        want = want[0]
    indices = INDEX if add else INDEX + DETINDEX
    with environment(c, files):
        obj = source(c, files, nmaps)
        configure(c, obj, dtcor, add, norm, double, exclude, include)
        for i in range(len(indices)):
            index = indices[i]
            obj.onlydata()
            equal(c, "data", obj[index], want[index])
        c.eq("shape", list(obj.dshape), list(want.shape[:-1]) + [len(dets)])


@contract("C15", functions=FUNCS, builtins=B, split=2, samples=40)
def image(c):
    """corrected spectra of an image"""
    corrections(c, 1)


SINDEX = [
    (slice(None),),
    (1,),
    (slice(None), 1, 0),
    (slice(None), [1, 0], [0, 1]),
    ([1, 0], slice(0, 1), slice(None, None, -1)),
    (0, slice(1, None), [1, 0]),
    (slice(None), 1, [0, 0, 1]),
    (np.newaxis, slice(None), [True, False]),
    (Ellipsis, [1, 0], slice(None), slice(None)),
    (slice(None), slice(None), slice(None), 1),
]


@contract("C15", functions=FUNCS, builtins=B, split=2, samples=20)
def stack(c):
    """corrected spectra of a stack of images"""
    files = Files(c, 2)
    dtcor, add, norm = c.choice("corrections", [(True, True, "arr_srcurrent"), (True, False, "arr_srcurrent"), (True, True, None), (False, True, None), (False, False, "arr_srcurrent")])
    exclude, include, dets = selected(c)
    want = files.expected(dets, dtcor, add, norm, double)
    with environment(c, files):
        obj = source(c, files, 2)
        configure(c, obj, dtcor, add, norm, double, exclude, include)
        obj.onlydata()
        for index in SINDEX:
            equal(c, "data", obj[index], want[index])


@contract("C15", functions=FUNCS + [F + "xiaimage._getcounters"], builtins=B, split=2, samples=20)
def statistics(c):
    """statistics and counters which come with the data"""
    nmaps = c.choice("maps", [1, 2])
    numbered = c.choice("numbered", [False, True])
    files = Files(c, nmaps, numbered)
    dtcor, add, norm = c.choice("corrections", [(True, True, "arr_srcurrent"), (True, False, None), (False, False, None)])
    exclude, include, dets = selected(c)
    everything = c.choice("statistics", ["rates", "all"]) == "all"
    want = files.expected(dets, dtcor, add, norm, double)
    zero = np.zeros_like(files.rates[..., 0, 0])
    rates = [[zero if a is None else a for a in files.rate(k, dets)] for k in (range(6) if everything else (2, 3))]
    stats = np.moveaxis(np.array(rates), (0, 1), (-2, -1))
    counters = files.counters[..., np.newaxis]
    if nmaps == 1:
        want, stats, counters = want[0], stats[0], counters[0]
    with environment(c, files):
        obj = source(c, files, nmaps)
        configure(c, obj, dtcor, add, norm, double, exclude, include)
        obj.onlyicrocr(not everything)
        for index in ((slice(None),), (1 if nmaps > 1 else 0, [1, 0]), ([0, 0], slice(0, 1))):
            obj.dataandstats()
            data, s = obj[index]
            equal(c, "data", data, want[index])
            equal(c, "statistics", s, stats[index])
            obj.dataall()
            data, s, ctr = obj[index]
            equal(c, "data", data, want[index])
            equal(c, "statistics", s, stats[index])
            equal(c, "counters", ctr, counters[index])
            obj.onlystats()
            equal(c, "statistics", obj[index], stats[index])
            obj.onlycounters()
            equal(c, "counters", obj[index], counters[index])
        obj.onlydata()
        equal(c, "data", obj[0], want[0])
        c.eq("shape of the statistics", list(obj.sshape), list(stats.shape))
        c.eq("detectors", list(obj.xialabels_used), dets)


@contract("C15", functions=FUNCS, builtins=B, samples=20)
def other_normalization(c):
    """normalization with a number or an unknown counter"""
    kind = c.choice("normalization", ["number", "unknown counter"])
    files = Files(c, 1)
    value = c.pos("value", 1, 10)
    with environment(c, files):
        obj = source(c, files, 1)
        configure(c, obj, False, False, value if kind == "number" else "arr_unknown", same, [], [])
        n = normalization(c, c.obj(value if kind == "number" else 1))[0]
        for index in ((slice(None),), (0, [1, 0])):
            obj.onlydata()
            got = obj[index]
            want = files.data[0][index]
            c.eq("shape", list(got.shape), list(want.shape))
            for g, w in zip(got.flat, want.flat):
                c.eq("value", g * n, w)


@contract("C15", functions=FUNCS[:4], builtins=B, samples=20)
def cancelled(c):
    """a map which was cancelled while scanning: only pixels with spectra and normalization are given"""
    rows = c.choice("rows of the counter", [3, 1])
    files = Files(c, 1)
    n = np.empty((rows, NCOL), dtype=files.dtype)
    for i, ind in enumerate(np.ndindex(*n.shape)):
        n[ind] = c.pos("n%d" % i, 1, 10)
    files.files["/scratch/sample_arr_srcurrent_0003_0000.edf"] = Image(n, {})
    data = files.data[0]
    if rows == 3:
        want = data / normalization(c, n[:NROW])[..., np.newaxis, np.newaxis]
    else:
        # one row applies to all
        want = data / normalization(c, n)[..., np.newaxis, np.newaxis]
    with environment(c, files):
        obj = source(c, files, 1)
        configure(c, obj, False, False, "arr_srcurrent", same, [], [])
        obj.onlydata()
        equal(c, "data", obj[:], want)


@contract("C15", functions=[F + x for x in ("xiacompound.save", "xiacompound._save_data", "xiacompound._save_xiadata", "xialine.save", "xialine._save_data", "xialine._save_stats", "xiastack_radix.search", "xiaimage_number.search")], mode="bounded", bound="8 random stacks of 2x3x2 spectra", samples=8)
def saving(c):
    """saved data is read back, corrected data is saved"""
    import shutil
    import tempfile

    path = tempfile.mkdtemp(prefix="dv_c15_")
    try:
        shape = (2, 3, 2)
        rng = np.random.RandomState(c.int("seed", 0, 10**6))
        data = rng.randint(0, 1000, shape + (4, 3))
        stats = rng.randint(500, 20000, shape + (6, 3))
        ctrs = rng.randint(1, 10, shape + (2,))
        labels = ["xia00", "xia01", "xia02"]
        names = ["arr_iodet", "xmap_x1_00"]
        a = M.xiastack_radix(path, "first")
        a.save(data, xialabels=labels, stats=stats, ctrs=ctrs, ctrnames=names)
        for b in (M.xiastack_radix(path, "first"), M.xiastack_mapnumbers(path, ["first"], [[0, 1]])):
            equal(c, "data", b.data, data)
            equal(c, "statistics", b.allstats, stats)
            equal(c, "counters", b.counters[..., 0], ctrs)
            equal(c, "one map", b[1], data[1])
        one = M.xiastack_mapnumbers(path, ["first"], [[1]])
        equal(c, "selected map", one.data, data[1:])
        b = M.xiastack_radix(path, "first")
        dtcor, add, norm = c.choice("corrections", [(True, True, "arr_iodet"), (True, False, None), (False, False, None), (False, True, None)])
        configure(c, b, dtcor, add, norm, same, [1], [])
        want = data[..., [0, 2]].astype(float)
        if dtcor:
            icr, ocr = stats[..., 2, :][..., np.newaxis, [0, 2]], stats[..., 3, :][..., np.newaxis, [0, 2]]
            want = want * np.where((icr < 1000) | (icr < ocr), 1, icr / ocr)
        if add:
            want = want.sum(axis=-1, keepdims=True)
        if norm:
            want = want / ctrs[..., :1, np.newaxis]
        b.onlydata()
        equal(c, "corrected", b[:], want)
        d = M.xiastack_radix(path, "second")
        d.save(b, xialabels=["xiaS1"] if add else ["xia00", "xia02"])
        got = M.xiastack_radix(path, "second").data
        equal(c, "saved", got, want)
    finally:
        shutil.rmtree(path)


@contract("C15", functions=[F + x for x in ("xiadata.globalnorm", "xiadata.localnorm", "xiadata._getindexednormalizer")], builtins=B, samples=20)
def normalization_functions(c):
    """functions applied on the counter: of one image or of all"""

    def triple(x):
        return x * 3

    files = Files(c, 2)
    with environment(c, files):
        obj = source(c, files, 2)
        obj.onlydata()
        images = obj.getitems()
        steps = [
            (lambda: obj.norm("arr_srcurrent", func=double), [double, double]),
            (lambda: images[0].localnorm("arr_srcurrent", func=triple), [triple, same]),
            (lambda: obj.globalnorm("arr_srcurrent", func=double), [triple, double]),
            (lambda: images[1].localnorm("arr_srcurrent", func=triple), [triple, triple]),
            (lambda: images[0].localnorm("arr_srcurrent"), [same, triple]),
            (lambda: images[1].globalnorm("arr_srcurrent"), [same, same]),
            (lambda: obj.norm(None), None),
        ]
        for step, fs in steps:
            step()
            got = obj[:]
            want = files.data
            if fs is not None:
                n = np.array([normalization(c, f(files.counters[i, ..., 1])) for i, f in enumerate(fs)])
                want = want / n[..., np.newaxis, np.newaxis]
            equal(c, "normalized", got, want)
