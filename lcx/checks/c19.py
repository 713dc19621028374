"""C19: files are read and written in their documented formats; result tables are augmented row by row."""

EXPLAIN = """The readers, writers, the downloader and the post-processing of result tables are interpreted abstractly; the data returned, the files and columns written with their
values, and the rejected inputs are compared with the reference semantics in lcx/refsrc/files.py."""

from ..refs import refrules


def run(cx):
    refrules(cx, "files", {
        "arrays": "a numpy array is written and read in the format of the file's suffix, by the same suffixes",
        "grid": "grid data are the sorted coordinates and the values in the order of the file's rows; incomplete, unsorted or malformed files are rejected",
        "lclib": "every event of a LCLIB file becomes one table with its own rows, parameter values and header entries",
        "results": "each row of a light curve gets its own signal-to-noise ratio, detection flag, magnitudes and time since the t0 of its object; invalid entries stay masked",
        "download": "a file is fetched from its URL to its path when it is missing or a download is forced, and never otherwise",
    })
