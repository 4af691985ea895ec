"""Properties of the system that this technique does not decide"""


def _line(pid, title, statement, over, for_all, why, files, mechanism):
    return {
        "id": pid,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": for_all},
        "why_tests_cant": why,
        "anchors": {"files": ["src/spectrocrunch/" + f for f in files], "mechanism": [{"name": n, "where": "src/spectrocrunch/" + w} for n, w in mechanism]},
    }


NOT_CLAIMED = {
    "C90": {
        "line": _line(
            "C90",
            "Concurrent processing of the same dataset does not corrupt or duplicate results",
            "When several processes run the same processing step on the same inputs and output at the same time, at most one result is stored under each name, and every stored result is complete.",
            ["schedules"],
            "every interleaving of the file operations of two or more processes",
            "The tests run one process at a time; interleavings of rename/create/exists operations on a shared file system are not scheduled.",
            ["process/basetask.py", "process/nxprocess.py", "io/fs.py", "io/h5fs.py"],
            [("exists / mkdir / move-to-final-name protocol of a task", "process/nxprocess.py")],
        ),
        "reason": "A property of interleavings of separate OS processes over HDF5 file locking: sequential function contracts have no permission or thread model for it, and the deciding behaviour is in the HDF5 library and the file system.",
    },
    "C91": {
        "line": _line(
            "C91",
            "Spectrum fitting recovers the generating model",
            "Fitting a spectrum that was generated by the forward model returns the peak areas, mass fractions and calibration that generated it, within the noise.",
            ["inputs"],
            "every fit model, detector configuration, and noise-free or counting-noise spectrum",
            "Tests fit a handful of simulated spectra; the claim is about all spectra and configurations.",
            ["materials/pymca.py", "xrf/fit.py", "math/fit1d.py", "math/fit2d.py"],
            [("non-linear least squares through the PyMca and scipy optimisers", "xrf/fit.py")],
        ),
        "reason": "Decided by floating-point convergence of iterative optimisers in PyMca and scipy (compiled dependencies): no contract on the Python functions here expresses it, and the needed contract of the optimiser (global convergence) is false in general.",
    },
}
