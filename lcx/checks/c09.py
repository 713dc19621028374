"""C09: every row of a simulated light curve belongs to one observation of one object."""

EXPLAIN = """simulate_lightcurves, its time windows and the noise-free light curves are interpreted abstractly on a symbolic model, list of surveys and options; the calls made for each
object and survey, the columns they fill and the frames built from them are compared with the reference pipeline in lcx/refsrc/simulate.py."""

from ..refs import refrules


def run(cx):
    refrules(cx, "simulate", {
        "window": "the time window is (t0 - before, t0 + after) for each object, one-sided where an end is None and absent without t0 or offsets",
        "pipeline": "time, filter, fluxes, error, survey index and saved columns of a row come from one observation; each object from its own sample",
        "noise free": "noise-free light curves use the requested rest-frame phases of each object, stretched by its redshift and shifted to its t0, in every passband",
    })
