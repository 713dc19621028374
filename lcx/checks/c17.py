"""C17: wavelengths outside a model's range are extrapolated as documented."""

EXPLAIN = """The extrapolation models and SEDModel.compute_sed_with_extrapolation are interpreted abstractly; the flux of every wavelength (in range, below, above), the calls that
compute it and the rejected settings are compared with the reference semantics in lcx/refsrc/wave_extrapolate.py."""

from ..refs import refrules


def run(cx):
    refrules(cx, "wave_extrapolate", {
        "extrapolation": "each extrapolation model returns its documented continuation of the boundary flux, for every time and queried wavelength",
        "bounds": "in-range wavelengths are the model's own values, wavelengths outside are extrapolated from the flux at the nearest bound, or zero without a model",
    })
