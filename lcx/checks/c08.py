"""C08: every flux is evaluated for its own sample, time, wavelength and filter."""

EXPLAIN = """The evaluation entry points of the model classes, the composite models and the light-curve templates are interpreted abstractly; returned arrays (entry by entry, through
their masked and indexed stores), constructor state, calls and rejected inputs are compared with the reference semantics in lcx/refsrc/evaluation.py."""

from ..refs import refrules


def run(cx):
    refrules(cx, "evaluation", {
        "samples": "sample i of a result is the evaluation of sample i of the graph state at the requested times, wavelengths and filters",
        "bands": "the flux of an observation is the band flux of its own filter at its own time",
        "construction": "a model keeps the settings and parameters it was built with",
        "composite": "additive models return the weighted sum over their objects, random models the flux of the object selected for the sample",
        "templates": "light-curve templates interpolate the selected curve of the filter, wrap periodic times and use the baseline outside the curve",
    })
