"""C15: unit, magnitude and redshift conversions are exactly the documented formulas."""

EXPLAIN = """Value-numbering of every conversion helper; the extracted term is compared, region by region, with the documented formula
interpreted by the same engine."""

from ..refs import Ref


def run(cx):
    cx.rule("magnitudes", "AB magnitude <-> nJy conversions use the 31.4 zero point and are mutual inverses", mags, cx)
    cx.rule("frames", "rest-frame times and wavelengths are (t-t0)/(1+z)+t0 and w/(1+z); observed flux is f*(1+z)", frames, cx)
    cx.rule("spectral-units", "f_lambda <-> f_nu conversion is lambda^2/c with the caller's units", fluxunits, cx)
    cx.rule("distance", "luminosity distance in pc of the given cosmology", dist, cx)


def mags(cx):
    r = Ref(cx, "magnitudes")
    f = cx.P.func("mag2flux", "mag_flux")
    r(f, "def f(mag):\n    return 10 ** (-0.4 * (mag - 31.4))")
    g = cx.P.func("flux2mag", "mag_flux")
    r(g, "def f(flux_njy):\n    return 31.4 - 2.5 * np.log10(flux_njy)")
    # mutual inverse: substitute one extracted term in the other
    it, st, v = r.run(f)
    t = it.T(v, st)
    it2, st2, v2 = r.run(g, given={g.params[0]: lambda i, s: v})
    cx.compare("magnitudes", "flux2mag(mag2flux(m))", cx.where(g), it2.T(v2, st2), ("s", f.params[0]), what="round trip of a magnitude")


def frames(cx):
    r = Ref(cx, "frames")
    r(cx.P.func("obs_to_rest_times_waves"), """
def f(observer_frame_times, observer_frame_wavelengths, redshift, t0):
    return ((observer_frame_times - t0) / (1 + redshift) + t0, observer_frame_wavelengths / (1 + redshift))
""")
    r(cx.P.func("rest_to_obs_flux"), "def f(flux_density, redshift):\n    return flux_density * (1 + redshift)")


def fluxunits(cx):
    r = Ref(cx, "spectral-units")
    h = "from astropy import constants as const\n"
    r(cx.P.func("flam_to_fnu"), """
def f(flux_flam, wavelengths, *, wave_unit, flam_unit, fnu_unit):
    w = np.asarray(wavelengths)
    x = np.asarray(flux_flam)
    if x.ndim > 1 and w.ndim == 1:
        w = w[None, :]
    return (1.0 * ((flam_unit * wave_unit * wave_unit) / const.c.unit)).to_value(fnu_unit) * (x * w**2 / const.c.value)
""", header=h)
    r(cx.P.func("fnu_to_flam"), """
def f(flux_fnu, wavelengths, *, wave_unit, flam_unit, fnu_unit):
    w = np.asarray(wavelengths)
    x = np.asarray(flux_fnu)
    if x.ndim > 1 and w.ndim == 1:
        w = w[None, :]
    return (1.0 * ((fnu_unit * const.c.unit) / (wave_unit * wave_unit))).to_value(flam_unit) * (x * const.c.value / w**2)
""", header=h)


def dist(cx):
    r = Ref(cx, "distance")
    r(cx.P.func("redshift_to_distance"), """
def f(redshift, cosmology):
    return (redshift * cu.redshift).to(u.pc, cu.redshift_distance(cosmology, kind="luminosity")).value
""", header="import astropy.cosmology.units as cu\nfrom astropy import units as u\n")
