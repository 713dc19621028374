"""C20: source and effect models compute the documented physics."""

EXPLAIN = """Every closed-form routine of the source models, their derived parameters and the effects is value-numbered and compared, region by
region, with a reference routine transcribed from its documentation."""

from ..refs import Ref, refrules

CST = "from astropy import constants, units as u\nfrom scipy import integrate\nfrom lightcurvelynx.consts import ANGSTROM_TO_CM, CGS_FNU_UNIT_TO_NJY, M_SUN_G, PARSEC_TO_CM\n"


def run(cx):
    cx.rule("agn", "AGN accretion, luminosity, disk temperature and variability relations", agn, cx)
    cx.rule("agn-derived", "each derived AGN parameter is computed from the sampled inputs of the same object", agn_params, cx)
    cx.rule("agn-drw", "the damped random walk decays over the time since the previous step", drw, cx)
    cx.rule("black-body", "black-body luminosity density per solid angle", bb, cx)
    cx.rule("detection", "detection efficiency curves", eff, cx)
    cx.rule("sources", "closed-form source models evaluate their documented light curve with the sampled parameters", sources, cx)
    cx.rule("constructors", "every constructor argument of a model sets the parameter or attribute of its own name", ctors, cx)
    cx.rule("binary", "eclipsing binaries: projected separation, circle overlap and eclipsed luminosities", binary, cx)
    cx.rule("snia", "SN Ia rates, Tripp relation, stretch distribution, distance modulus and host separation", snia, cx)
    cx.rule("salt2", "SALT2 flux surfaces, colour law and bicubic interpolation kernel", salt2, cx)
    cx.rule("dust", "dust maps are queried at the sampled position and translated once", dust, cx)
    cx.rule("effects", "effects scale, dim, redden, magnify or add noise exactly as documented", effects, cx)
    refrules(cx, "models", {
        "bayesn": "BayeSN: natural cubic splines of the warping surfaces and the template, dust and amplitude at the sampled parameters",
        "redback": "redback sources get exactly their own sampled parameters, times relative to t0 and wavelengths within their bounds",
        "sncosmo": "the wrapped sncosmo source holds the sampled value of each of its parameters",
        "files": "spectra, dust maps and extinction laws are loaded from the place and for the name that was asked for",
        "snia-run": "the SN Ia example links host, distance modulus, stretch and colour of one object and computes its fluxes from its own state",
    })


def agn(cx):
    r = Ref(cx, "agn")
    m = lambda n: cx.P.method("AGN", n)  # noqa: E731
    r(m("compute_critical_accretion_rate"), "def f(blackhole_mass):\n    return 1.4e18 * blackhole_mass / consts.M_SUN_G")
    r(m("compute_blackhole_accretion_rate"), "def f(accretion_rate, edd_ratio):\n    return accretion_rate * edd_ratio")
    r(m("compute_bolometric_luminosity"), "def f(edd_ratio, blackhole_mass):\n    return edd_ratio * 1.26e38 * blackhole_mass / consts.M_SUN_G")
    r(m("compute_mag_i"), "def f(bolometric_luminosity):\n    return 90 - 2.5 * np.log10(bolometric_luminosity)")
    r(m("compute_r_0"), "def f(r_in):\n    return (49 / 36) * r_in")
    r(m("compute_structure_function_at_inf"), "def f(sf_inf_4000aa, wavelength):\n    return sf_inf_4000aa * 10 ** (-0.479) * wavelength / 4000e-8")
    r(m("compute_tau"), "def f(tau_4000aa, wavelength):\n    return tau_4000aa * 10**0.17 * wavelength / 4000e-8")
    r(m("compute_sf_inf_4000aa"), """
def f(mag_i, blackhole_mass):
    return 10 ** (-0.476 + 0.118 * (mag_i + 23) + 0.118 * np.log10(blackhole_mass / (1e9 * consts.M_SUN_G)))
""")
    r(m("compute_tau_4000aa"), """
def f(mag_i, blackhole_mass):
    return 10 ** (2.597 + 0.035 * (mag_i + 23) + 0.141 * np.log10(blackhole_mass / (1e9 * consts.M_SUN_G)))
""")
    r(m("compute_temp_at_r_0"), """
def f(M, Mdot, r_in):
    return 2 ** (3 / 4) * (3 / 7) ** (7 / 4) * (constants.G.cgs.value * M * Mdot / (np.pi * constants.sigma_sb.cgs.value * r_in**3)) ** (1 / 4)
""", header=CST)
    r(m("compute_sed_standard_disk"), """
def f(*, Mdot, nu, rin_to_rg, i, d, M):
    rin = constants.G.cgs.value * M / constants.c.cgs.value**2 * rin_to_rg
    r_0 = (7 / 6) ** 2 * rin
    T_0 = AGN.compute_temp_at_r_0(M, Mdot, rin)
    h, k, c = constants.h.cgs.value, constants.k_B.cgs.value, constants.c.cgs.value
    x_in = np.maximum(h * nu / (k * T_0) * (rin / r_0) ** (3 / 4), 1e-6)
    integ, _ = np.vectorize(lambda a, b: integrate.quad(lambda x: (x ** (5 / 3)) / np.expm1(x), a, b))(x_in, np.inf)
    return (16 * np.pi / (3 * d**2) * np.cos(i) * (k * T_0 / h) ** (8 / 3) * h * nu ** (1 / 3) / c**2 * r_0**2 * integ) * CGS_FNU_UNIT_TO_NJY
""", header=CST + "from lightcurvelynx.models.agn import AGN\n")
    r(m("compute_sed"), """
def f(self, times, wavelengths, graph_state, rng_info=None, **kwargs):
    p = self.get_local_params(graph_state)
    w = wavelengths * ANGSTROM_TO_CM
    f_nu = self.compute_sed_standard_disk(Mdot=p["blackhole_accretion_rate"], nu=constants.c.cgs.value / w, rin_to_rg=6.0,
        i=p["inclination_rad"], d=p["distance"] * PARSEC_TO_CM, M=p["blackhole_mass_gram"])
    rng = rng_info
    if rng is None:
        rng = self._rng
    dm = sample_damped_random_walk(times, self.compute_tau(p["tau_4000aa"], w),
        self.compute_structure_function_at_inf(p["sf_inf_4000aa"], w), p["t0"], rng=rng)
    return 10 ** (-0.4 * dm) * f_nu
""", header=CST + "from lightcurvelynx.models.agn import AGN, sample_damped_random_walk\n",
      uninterp=("compute_sed_standard_disk", "sample_damped_random_walk", "get_local_params", "compute_tau", "compute_structure_function_at_inf"))


def agn_params(cx):
    r = Ref(cx, "agn-derived")
    r(cx.P.method("AGN", "__init__"), """
def f(self, t0, blackhole_mass, edd_ratio, node_label=None, seed=None, **kwargs):
    if "redshift" not in kwargs:
        raise ValueError()
    if "cosmology" not in kwargs and "distance" not in kwargs:
        raise ValueError()
    self.add_parameter("blackhole_mass", blackhole_mass, **kwargs)
    self.add_parameter("edd_ratio", edd_ratio, **kwargs)
    self.add_parameter("inclination_rad", NumpyRandomFunc("uniform", seed=seed, low=0, high=np.pi / 2.0), **kwargs)
    self.add_parameter("blackhole_mass_gram", FunctionNode(lambda m_sun: m_sun * consts.M_SUN_G, m_sun=self.blackhole_mass), **kwargs)
    self.add_parameter("critical_accretion_rate", FunctionNode(self.compute_critical_accretion_rate, blackhole_mass=self.blackhole_mass_gram), **kwargs)
    self.add_parameter("blackhole_accretion_rate", FunctionNode(self.compute_blackhole_accretion_rate,
        accretion_rate=self.critical_accretion_rate, edd_ratio=self.edd_ratio), **kwargs)
    self.add_parameter("bolometric_luminosity", FunctionNode(self.compute_bolometric_luminosity, edd_ratio=self.edd_ratio, blackhole_mass=self.blackhole_mass_gram), **kwargs)
    self.add_parameter("mag_i", FunctionNode(self.compute_mag_i, bolometric_luminosity=self.bolometric_luminosity), **kwargs)
    self.add_parameter("sf_inf_4000aa", FunctionNode(self.compute_sf_inf_4000aa, mag_i=self.mag_i, blackhole_mass=self.blackhole_mass_gram))
    self.add_parameter("tau_4000aa", FunctionNode(self.compute_tau_4000aa, mag_i=self.mag_i, blackhole_mass=self.blackhole_mass_gram))
""", uninterp=("add_parameter", "SEDModel.__init__", "FunctionNode.__init__", "NumpyRandomFunc.__init__"), calls=("add_parameter",),
      header="from lightcurvelynx.base_models import FunctionNode\nfrom lightcurvelynx.math_nodes.np_random import NumpyRandomFunc\n")
    gal = "".join(f"""
    {c} galaxy_type.lower() == "{g}":
        br = 10 ** rng.normal({m}, {sd}, num_samples)
        d1 = rng.normal({a} - 0.7, {sa}, num_samples)
        d2 = rng.normal({b}, {sb}, num_samples)
        res = 10**-{x} * ((edd_ratio / br) ** d1 + (edd_ratio / br) ** d2)""" for c, g, m, sd, a, sa, b, sb, x in (
        ("if", "red", "-2.81", "0.18", "0.41", "0.02", "1.22", "0.16", "2.13"), ("elif", "blue", "-1.84", "0.335", "0.471", "0.02", "2.53", "0.53", "1.65")))
    r(cx.P.func("eddington_ratio_dist_fun"), f"""
def f(edd_ratio, galaxy_type="Blue", rng=None, num_samples=1):
    if rng is None:
        rng = np.random.default_rng()
{gal}
    else:
        raise ValueError()
    if num_samples == 1:
        return res[0]
    return res
""")


DRW = """
def f(times, tau_v, sf_inf, t0, rng=None):
    if len(sf_inf) != len(tau_v):
        raise ValueError()
    if rng is None:
        rng = np.random.default_rng()
    samples = np.zeros((len(times), len(tau_v)))
    x = rng.random() * sf_inf
    prev = t0
    for idx, time in enumerate(times):
        dt = time - prev
        {upd}
        x = x * np.exp(-dt / tau_v) + sf_inf * np.sqrt(1 - np.exp(-2 * dt / tau_v)) * rng.random()
        samples[idx, :] = x
    return samples
"""


def drw(cx):
    r = Ref(cx, "agn-drw")
    f = cx.P.func("sample_damped_random_walk")
    i = r.any(f, [DRW.format(upd="prev = time"), DRW.format(upd="pass")])
    if i is not None:
        cx.verdict(i == 0, "agn-drw", "sample_damped_random_walk:previous-time", cx.where(f),
                   "" if i == 0 else "sample_damped_random_walk: the decay at every step uses the time since t0, not the time since the previous step (curr_t is never advanced)")


def bb(cx):
    r = Ref(cx, "black-body")
    r(cx.P.func("black_body_luminosity_density_per_solid"), """
def f(temperature, radius, wavelengths):
    b = BlackBody(temperature * u.K)
    return b(wavelengths * u.cm).to_value(u.erg / u.s / u.cm**2 / u.Hz / u.steradian) * np.pi * radius**2
""", header=CST + "from astropy.modeling.physical_models import BlackBody\n")


def eff(cx):
    r = Ref(cx, "detection")
    r(cx.P.func("phot_eff_function"), "def f(snr):\n    return np.where(snr > 5, 1.0, 0.0)")
    r(cx.P.func("spec_eff_function"), "def f(peak_imag):\n    return 1.0 / (1.0 + np.exp(2.36 * peak_imag - 51.9))")


def sources(cx):
    r = Ref(cx, "sources")
    m = cx.P.method
    gl = ("get_local_params", "get_param")
    H = "def f(self, times, wavelengths, graph_state, **kwargs):\n    p = self.get_local_params(graph_state)\n"
    for cls, body, hd in (
        ("ConstantSEDModel", "    return np.full((len(times), len(wavelengths)), p['brightness'])", ""),
        ("StepModel", """    out = np.zeros((len(times), len(wavelengths)))
    out[(times >= p["t0"]) & (times <= p["t1"])] = p["brightness"]
    return out""", ""),
        ("SinWaveModel", """    v = p["brightness"] + p["amplitude"] * np.sin(2 * np.pi * p["frequency"] * (times - p["t0"]))
    return np.tile(v[:, np.newaxis], (1, len(wavelengths)))""", ""),
        ("LinearWavelengthModel", """    v = p["linear_base"] + p["linear_scale"] * wavelengths
    return np.tile(v[np.newaxis, :], (len(times), 1))""", ""),
        ("PeriodicModel", """    return self._evaluate_phases((times - p["t0"]) % p["period"] / p["period"], wavelengths, graph_state, **kwargs)""", ""),
        ("SplineModel", """    t0 = p["t0"]
    if t0 is None:
        t0 = 0.0
    return p["amplitude"] * self._spline(times - t0, wavelengths, grid=True)""", ""),
        ("SALT2JaxModel", """    ph = times - p["t0"]
    fl = p["x0"] * (self._m0_model(ph, wavelengths) + p["x1"] * self._m1_model(ph, wavelengths)) * 10.0 ** (-0.4 * self._colorlaw.apply(wavelengths) * p["c"])
    return flam_to_fnu(fl, wavelengths, wave_unit=u.AA, flam_unit=u.erg / u.second / u.cm**2 / u.AA, fnu_unit=u.nJy)""",
         "from astropy import units as u\nfrom lightcurvelynx.astro_utils.unit_utils import flam_to_fnu\n"),
    ):
        r(m(cls, "compute_sed"), H + body + "\n", header=hd, uninterp=(*gl, "flam_to_fnu", "_evaluate_phases"))
    r(m("SncosmoWrapperModel", "compute_sed"), """
def f(self, times, wavelengths, graph_state=None, **kwargs):
    p = self.get_local_params(graph_state)
    self._update_sncosmo_model_parameters(graph_state)
    if np.any(wavelengths < self.source.minwave()) or np.any(wavelengths > self.source.maxwave()):
        return self.compute_sed_with_extrapolation(times, wavelengths, graph_state, **kwargs)
    fl = self.source.flux(times - p["t0"], wavelengths)
    return flam_to_fnu(fl, wavelengths, wave_unit=u.AA, flam_unit=u.erg / u.second / u.cm**2 / u.AA, fnu_unit=u.nJy)
""", header="from astropy import units as u\nfrom lightcurvelynx.astro_utils.unit_utils import flam_to_fnu\n",
      uninterp=(*gl, "flam_to_fnu", "compute_sed_with_extrapolation", "_update_sncosmo_model_parameters"), calls=("_update_sncosmo_model_parameters",))
    r(m("SncosmoWrapperModel", "_update_sncosmo_model_parameters"), """
def f(self, graph_state):
    p = graph_state.get_node_state(self.node_string, 0)
    out = {}
    for name in self.source_param_names:
        out[name] = p[name]
    self.source.set(**out)
""", calls=("set",), uninterp=("get_node_state",))
    r(m("GaussianGalaxy", "compute_sed"), """
def f(self, times, wavelengths, graph_state, ra=None, dec=None, **kwargs):
    p = self.get_local_params(graph_state)
    d = 0.0
    if ra is not None and dec is not None:
        d = angular_separation(p["ra"] * np.pi / 180, p["dec"] * np.pi / 180, ra * np.pi / 180, dec * np.pi / 180)
    return np.full((len(times), len(wavelengths)), p["brightness"] * np.exp(-d**2 / (2 * p["galaxy_radius_std"] ** 2)))
""", header="from astropy.coordinates import angular_separation\n", uninterp=gl)
    r(m("StaticSEDModel", "compute_sed"), """
def f(self, times, wavelengths, graph_state, **kwargs):
    i = self.get_param(graph_state, "selected_idx")
    v = np.interp(wavelengths, self.sed_values[i][0, :], self.sed_values[i][1, :], left=0.0, right=0.0)
    return np.tile(v, len(times)).reshape(len(times), len(wavelengths))
""", uninterp=gl)
    r(m("StaticSEDModel", "minwave"), "def f(self, graph_state=None):\n    return self.sed_values[self.get_param(graph_state, 'selected_idx')][0, 0]", uninterp=gl, strip=False)
    r(m("StaticSEDModel", "maxwave"), "def f(self, graph_state=None):\n    return self.sed_values[self.get_param(graph_state, 'selected_idx')][0, -1]", uninterp=gl, strip=False)
    r(m("SplineModel", "minwave"), "def f(self, graph_state=None):\n    return self._wavelengths[0]", strip=False)
    r(m("SplineModel", "maxwave"), "def f(self, graph_state=None):\n    return self._wavelengths[-1]", strip=False)
    r(m("StaticBandfluxModel", "compute_bandflux"), """
def f(self, times, filters, state, rng_info=None):
    v = self.bandflux_values[self.get_param(state, "selected_idx")]
    out = np.zeros(len(times), dtype=float)
    for flt in np.unique(filters):
        out[filters == flt] = v[flt]
    return out
""", uninterp=gl)
    for cls in ("SALT2JaxModel", "SncosmoWrapperModel"):
        lo, hi = ("-20.0", "50.0") if cls == "SALT2JaxModel" else ("self.source.minphase()", "self.source.maxphase()")
        r(m(cls, "mask_by_time"), f"""
def f(self, times, graph_state=None):
    if graph_state is None:
        raise ValueError()
    z = self.get_param(graph_state, "redshift", 0.0)
    if z is None:
        z = 0.0
    t0 = self.get_param(graph_state, "t0", 0.0)
    if t0 is None:
        t0 = 0.0
    return (times > t0 + {lo} * (1 + z)) & (times < t0 + {hi} * (1 + z))
""", uninterp=gl)


def ctors(cx):
    r = Ref(cx, "constructors")
    un = ("add_parameter", "SEDModel.__init__", "BandfluxModel.__init__", "BasePhysicalModel.__init__", "ConstantSEDModel.__init__", "PeriodicModel.__init__",
          "PeriodicVariableStar.__init__", "has_valid_param", "from_grid_file", "SALT2ColorLaw.from_file", "GivenValueSampler.__init__")
    HD = ("from lightcurvelynx.math_nodes.given_sampler import GivenValueSampler\nfrom lightcurvelynx.utils.bicubic_interp import BicubicInterpolator\n"
          "from lightcurvelynx.astro_utils.salt2_color_law import SALT2ColorLaw\nfrom pathlib import Path\nfrom scipy.interpolate import RectBivariateSpline\n")

    def c(cls, sig, sup, params, extra="", attrs=(), pre=""):
        body = f"{pre}    super().__init__({sup})\n" + "".join(f"    self.add_parameter({k!r}, {v}**kwargs)\n" for k, v in params)
        r(cx.P.method(cls, "__init__"), f"def f(self, {sig}):\n{body}{extra}", uninterp=set(un) - {f"{cls}.__init__"}, calls=("add_parameter", "__init__"), attrs=attrs, header=HD)

    same = lambda *ns: [(n, n + ", ") for n in ns]  # noqa: E731
    c("ConstantSEDModel", "brightness, **kwargs", "**kwargs", same("brightness"))
    c("StepModel", "brightness, t1, **kwargs", "brightness, **kwargs", same("t1"))
    c("SinWaveModel", "*, brightness=0.0, amplitude=0.0, frequency=1.0, **kwargs", "**kwargs", same("brightness", "amplitude", "frequency"))
    c("LinearWavelengthModel", "linear_base, linear_scale, min_wave=None, max_wave=None, **kwargs", "**kwargs", same("linear_base", "linear_scale"),
      "    self.min_wave = min_wave\n    self.max_wave = max_wave\n", ("min_wave", "max_wave"))
    c("PeriodicModel", "period, **kwargs", "**kwargs", same("period"))
    c("PeriodicVariableStar", "period, **kwargs", "period, **kwargs", [], "    if not self.has_valid_param('distance'):\n        raise ValueError()\n")
    c("EclipsingBinaryStar", "**kwargs", "**kwargs", [(n, "") for n in (
        "major_semiaxis", "inclination", "primary_radius", "secondary_radius", "primary_temperature", "secondary_temperature")])
    c("GaussianGalaxy", "brightness, radius, **kwargs", "**kwargs", [("galaxy_radius_std", "radius, "), ("brightness", "brightness, ")])
    c("SNIaHost", "**kwargs", "**kwargs", [("hostmass", "")])
    c("SplineModel", "times, wavelengths, flux, amplitude=1.0, time_degree=3, wave_degree=3, **kwargs", "**kwargs", same("amplitude"),
      "    self._times = times\n    self._wavelengths = wavelengths\n    self._spline = RectBivariateSpline(times, wavelengths, flux, kx=time_degree, ky=wave_degree)\n",
      ("_wavelengths", "_spline"))
    r(cx.P.method("SplineModel", "from_file"), """
def f(cls, input_file, format="ascii", amplitude=1.0, time_degree=3, wave_degree=3, **kwargs):
    t, w, fl = read_grid_data(input_file, format=format, validate=True)
    return cls(t, w, fl, amplitude=amplitude, time_degree=time_degree, wave_degree=wave_degree, **kwargs)
""", uninterp=("read_grid_data", "SplineModel.__init__"), calls=("__init__", "read_grid_data"), header="from lightcurvelynx.utils.io_utils import read_grid_data\n")
    c("SALT2JaxModel", 'x0=None, x1=None, c=None, model_dir="", m0_filename="salt2_template_0.dat", m1_filename="salt2_template_1.dat", cl_filename="salt2_color_correction.dat", **kwargs',
      "**kwargs", same("x0", "x1", "c"), """
    d = Path(model_dir)
    self._m0_model = BicubicInterpolator.from_grid_file(d / m0_filename, scale_factor=1e-12)
    self._m1_model = BicubicInterpolator.from_grid_file(d / m1_filename, scale_factor=1e-12)
    self._colorlaw = SALT2ColorLaw.from_file(d / cl_filename)
""", ("_m0_model", "_m1_model", "_colorlaw"))
    r(cx.P.method("SncosmoWrapperModel", "__init__"), """
def f(self, source_name, node_label=None, wave_extrapolation=None, seed=None, **kwargs):
    from sncosmo.models import get_source
    super().__init__(node_label=node_label, wave_extrapolation=wave_extrapolation, seed=seed, **kwargs)
    self.source_name = source_name
    self.source = get_source(source_name)
    names = []
    for key, value in kwargs.items():
        if key not in self.setters:
            self.add_parameter(key, value)
        if key in self.source.param_names:
            names.append(key)
    self.source_param_names = names
""", uninterp=un, calls=("add_parameter", "__init__"), attrs=("source", "source_name", "source_param_names"))
    r(cx.P.method("SncosmoWrapperModel", "_sample_helper"), """
def f(self, graph_state, seen_nodes, rng_info=None):
    super()._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
    self._update_sncosmo_model_parameters(graph_state)
""", uninterp=("ParameterizedNode._sample_helper", "_update_sncosmo_model_parameters"), calls=("_sample_helper", "_update_sncosmo_model_parameters"))
    r(cx.P.method("StaticSEDModel", "from_file"), """
def f(cls, sed_file, **kwargs):
    d = read_numpy_data(sed_file)
    if d.ndim != 2 or d.shape[1] != 2:
        raise ValueError()
    return cls(sed_values=d.T, **kwargs)
""", uninterp=("read_numpy_data", "StaticSEDModel.__init__"), calls=("__init__",), header="from lightcurvelynx.utils.io_utils import read_numpy_data\n")
    fn = ("FunctionNode.__init__",)

    def w(cls, sig, call, **k):
        r(cx.P.method(cls, "__init__"), f"def f(self, {sig}):\n    super().__init__({call}, **kwargs)\n", uninterp=fn, calls=("__init__",), raises=False, key=cls + ".wiring",
          header="from lightcurvelynx.astro_utils.snia_utils import _x0_from_distmod\n", **k)

    w("X0FromDistMod", "distmod, x1, c, alpha, beta, m_abs, **kwargs", "func=_x0_from_distmod, distmod=distmod, x1=x1, c=c, alpha=alpha, beta=beta, m_abs=m_abs")
    w("DistModFromRedshift", "redshift, H0=73.0, Omega_m=0.3, **kwargs", "func=self._distmod_from_redshift, redshift=redshift")
    w("SNCoordGivenPhysicalSep", "host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, seed=None, **kwargs",
      "func=self._sn_coord, host_ra=host_ra, host_dec=host_dec, physical_sep_kpc=physical_sep_kpc, redshift=redshift, outputs=['ra', 'dec']")
    w("DustEBV", "query_fn, ra=None, dec=None, **kwargs", "query_fn, ra=ra, dec=dec, outputs=['ebv']")
    r(cx.P.method("DustmapWrapper", "__init__"), """
def f(self, dust_map, ra=None, dec=None, ebv_func=None, **kwargs):
    super().__init__(self.compute_ebv, ra=ra, dec=dec, **kwargs)
    self._ebv_func = ebv_func
    self._dust_map = dust_map
""", uninterp=("DustEBV.__init__",), calls=("__init__",), attrs=("_ebv_func", "_dust_map"))
    r(cx.P.method("SFDMap", "__init__"), "def f(self, data_dir=None, ra=None, dec=None, **kwargs):\n    super().__init__(self.compute_ebv, ra=ra, dec=dec, **kwargs)\n"
      "    self.dustmap = self._load_data(data_dir)\n", uninterp=("DustEBV.__init__", "_load_data"), calls=("__init__",), attrs=("dustmap",))
    r(cx.P.method("ConstantHemisphereDustMap", "__init__"), "def f(self, north_ebv, south_ebv):\n    self.north_ebv = north_ebv\n    self.south_ebv = south_ebv\n", attrs=("north_ebv", "south_ebv"))
    one = """
    {one}
    self._sampler_node = GivenValueSampler([i for i in range(len(self.{a}))], weights=weights, seed=kwargs.get("seed"))
    self.add_parameter("selected_idx", value=self._sampler_node, allow_gradient=False)
"""
    c("StaticSEDModel", "sed_values, weights=None, **kwargs", "**kwargs", [],
      one.format(a="sed_values", one="self.sed_values = [sed_values] if isinstance(sed_values, np.ndarray) and len(sed_values) == 2 else sed_values"), ("sed_values",), """
    for sed in [sed_values] if isinstance(sed_values, np.ndarray) and len(sed_values) == 2 else sed_values:
        if not isinstance(sed, np.ndarray) or len(sed.shape) != 2 or sed.shape[0] != 2:
            raise ValueError()
        if sed.shape[1] < 2:
            raise ValueError()
        if not np.all(np.diff(sed[0, :]) > 0):
            raise ValueError()
""")
    c("StaticBandfluxModel", "bandflux_values, weights=None, **kwargs", "**kwargs", [],
      one.format(a="bandflux_values", one="self.bandflux_values = [bandflux_values] if isinstance(bandflux_values, dict) else bandflux_values"), ("bandflux_values",))


def binary(cx):
    r = Ref(cx, "binary")
    m = cx.P.method
    r(m("PeriodicVariableStar", "_evaluate_phases"), """
def f(self, phases, wavelengths, graph_state, **kwargs):
    d = self.get_param(graph_state, "distance") * PARSEC_TO_CM
    return self._dl_dnu_domega_phases(phases, wavelengths * ANGSTROM_TO_CM, graph_state, **kwargs) / d**2 * CGS_FNU_UNIT_TO_NJY
""", header=CST, uninterp=("get_param", "_dl_dnu_domega_phases"))
    r(m("EclipsingBinaryStar", "_norm_star_center_distance"), """
def f(phase_fraction, inclination_degree):
    a, i = 2 * np.pi * phase_fraction, inclination_degree * np.pi / 180
    return np.sqrt((np.cos(i) * np.cos(a)) ** 2 + np.sin(a) ** 2)
""")
    r(m("EclipsingBinaryStar", "_circle_overlap_area"), """
def f(d, r1, r2):
    a1 = np.arccos((d**2 + r1**2 - r2**2) / (2 * r1 * d))
    a2 = np.arccos((d**2 + r2**2 - r1**2) / (2 * r2 * d))
    area = r1**2 * a1 + r2**2 * a2 - r1 * d * np.sin(a1)
    area = np.where(area >= 0.0, area, 0.0)
    area = np.where(d <= np.abs(r1 - r2), np.pi * np.minimum(r1, r2) ** 2, area)
    return np.where(d >= r1 + r2, 0, area)
""")
    r(m("EclipsingBinaryStar", "_dl_dnu_domega_phases"), """
def f(self, phases, wavelengths_cm, graph_state, **kwargs):
    phases = phases[:, None]
    p = self.get_local_params(graph_state)
    r1, r2 = p["primary_radius"], p["secondary_radius"]
    l1 = black_body_luminosity_density_per_solid(p["primary_temperature"], r1, wavelengths_cm)
    l2 = black_body_luminosity_density_per_solid(p["secondary_temperature"], r2, wavelengths_cm)
    d = p["major_semiaxis"] * self._norm_star_center_distance(phases, p["inclination"])
    area = self._circle_overlap_area(d, r1, r2)
    front = np.logical_or(phases < 0.25, phases > 0.75)
    e1 = l1 * (1 - np.where(front, area / (np.pi * r1**2), 0.0))
    e2 = l2 * (1 - np.where(~front, area / (np.pi * r2**2), 0.0))
    return np.where(e1 >= 0, e1, 0) + np.where(e2 >= 0, e2, 0)
""", header="from lightcurvelynx.astro_utils.black_body import black_body_luminosity_density_per_solid\n",
      uninterp=("get_local_params", "black_body_luminosity_density_per_solid", "_norm_star_center_distance", "_circle_overlap_area"))


def snia(cx):
    r = Ref(cx, "snia")
    m = cx.P.method
    r(cx.P.func("snia_volumetric_rates"), "def f(redshift):\n    return 2.27e-5 * (1 + redshift) ** 1.7")
    r(cx.P.func("_x0_from_distmod"), "def f(distmod, x1, c, alpha, beta, m_abs):\n    return 10 ** (-0.4 * (distmod - alpha * x1 + beta * c + m_abs - 10.635))")
    r(cx.P.func("num_snia_per_redshift_bin"), """
def f(zmin=0.001, zmax=10, znbins=20, solid_angle=None, H0=73.0, Omega_m=0.3):
    if solid_angle is None:
        solid_angle = 4 * np.pi
    cosmo = FlatLambdaCDM(H0=H0, Om0=Omega_m)
    z = np.linspace(zmin, zmax, znbins + 1)
    zz = np.linspace(z[:-1], z[1:], 50, axis=1)
    dv = solid_angle * cosmo.differential_comoving_volume(zz) * (H0 / 70.0) ** 3
    return integrate.trapezoid(2.27e-5 * (1 + zz) ** 1.7 * dv.value, zz, axis=1), np.mean(zz, axis=1)
""", header=CST + "from astropy.cosmology import FlatLambdaCDM\n")
    r(m("HostmassX1Distr", "_p"), """
def f(self, x1, hostmass=9.0):
    return np.where(hostmass < 10.0, np.where(np.logical_and(x1 > -5, x1 < 5), np.exp(-np.minimum(0, x1) ** 2), 0.0), 1.0)
""")
    r(m("HostmassX1Distr", "pdf"), "def f(self, x1):\n    return self._p(x1, hostmass=self.hostmass) * norm.pdf(x1, loc=0, scale=1)",
      header="from scipy.stats import norm\n", uninterp=("_p",))
    r(m("HostmassX1Func", "compute"), """
def f(self, graph_state, rng_info=None, **kwargs):
    rng = rng_info if rng_info is not None else self._rng
    hm = self.get_param(graph_state, "hostmass")
    if graph_state.num_samples == 1:
        res = self._inv_poly_ge_10.rvs(1, rng)[0] if hm >= 10 else self._inv_poly_lt_10.rvs(1, rng)[0]
    else:
        res = np.zeros(graph_state.num_samples)
        res[hm >= 10.0] = self._inv_poly_ge_10.rvs(np.count_nonzero(hm >= 10.0), rng)
        res[hm < 10.0] = self._inv_poly_lt_10.rvs(np.count_nonzero(hm < 10.0), rng)
    self._save_results(res, graph_state)
    return res
""", uninterp=("get_param", "_save_results"), calls=("_save_results",))
    r(m("HostmassX1Func", "__init__"), """
def f(self, hostmass, **kwargs):
    super().__init__(dist=HostmassX1Distr, hostmass=hostmass, **kwargs)
    self._inv_poly_ge_10 = NumericalInversePolynomial(HostmassX1Distr(11.0))
    self._inv_poly_lt_10 = NumericalInversePolynomial(HostmassX1Distr(9.0))
""", attrs=("_inv_poly_ge_10", "_inv_poly_lt_10"), uninterp=("NumericalInversePolynomialFunc.__init__",), raises=False,
      header="from scipy.stats.sampling import NumericalInversePolynomial\nfrom lightcurvelynx.astro_utils.snia_utils import HostmassX1Distr\n")
    r(m("DistModFromRedshift", "_distmod_from_redshift"), "def f(self, redshift):\n    return self.cosmo.distmod(redshift).value")
    for c in ("DistModFromRedshift", "SNCoordGivenPhysicalSep"):
        ps = "self, redshift, H0=73.0, Omega_m=0.3, **kwargs" if c[0] == "D" else "self, host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, seed=None, **kwargs"
        r(m(c, "__init__"), f"def f({ps}):\n    self.cosmo = FlatLambdaCDM(H0=H0, Om0=Omega_m)\n", attrs=("cosmo",), header="from astropy.cosmology import FlatLambdaCDM\n", key=c + ".cosmo")
    r(m("SNCoordGivenPhysicalSep", "_host_sn_angular_separation"), """
def f(self, physical_sep_kpc, redshift):
    return physical_sep_kpc * u.kpc / self.cosmo.angular_diameter_distance(redshift) * u.rad
""", header=CST)
    r(m("SNCoordGivenPhysicalSep", "_sn_coord"), """
def f(self, host_ra, host_dec, physical_sep_kpc, redshift, rng=None):
    if rng is None:
        rng = self._rng
    sep = self._host_sn_angular_separation(physical_sep_kpc, redshift)
    center = SkyCoord(host_ra * u.deg, host_dec * u.deg, frame="icrs")
    pos = center.directional_offset_by(2 * np.pi * rng.random(center.size) * u.rad, sep)
    return pos.ra.deg, pos.dec.deg
""", header=CST + "from astropy.coordinates import SkyCoord\n", uninterp=("_host_sn_angular_separation",))


def salt2(cx):
    r = Ref(cx, "salt2")
    m = cx.P.method
    r(m("SALT2ColorLaw", "__init__"), """
def f(self, wave_min, wave_max, coeffs):
    coeffs = np.array(coeffs)
    n = min(len(coeffs), 6)
    pad = np.zeros(7)
    pad[1 : n + 1] = np.array(coeffs)[0:n]
    pad[0] = 1.0 - np.sum(pad)
    self.coeffs = pad
    self.scaled_wave_min = (wave_min - 4302.57) * (1.0 / (5428.55 - 4302.57))
    self.scaled_wave_max = (wave_max - 4302.57) * (1.0 / (5428.55 - 4302.57))
    self.exponents = jnp.arange(1, 8, 1)
    self.value_at_min = jnp.sum(self.coeffs * jnp.power(self.scaled_wave_min, jnp.arange(1, 8, 1)))
    self.value_at_max = jnp.sum(self.coeffs * jnp.power(self.scaled_wave_max, jnp.arange(1, 8, 1)))
    d = jnp.arange(2, 8, 1) * self.coeffs[1:7]
    self.deriv_at_min = jnp.sum(d * jnp.power(self.scaled_wave_min, jnp.arange(1, 7, 1))) + self.coeffs[0]
    self.deriv_at_max = jnp.sum(d * jnp.power(self.scaled_wave_max, jnp.arange(1, 7, 1))) + self.coeffs[0]
""", header="import jax.numpy as jnp\n", strip=False,
      attrs=("coeffs", "scaled_wave_min", "scaled_wave_max", "exponents", "value_at_min", "value_at_max", "deriv_at_min", "deriv_at_max"))
    r(m("SALT2ColorLaw", "from_file"), """
def f(cls, filename):
    with open(filename, mode="r") as fh:
        data = fh.read().split()
    n = int(data[0])
    lo = 3000.0
    hi = 7000.0
    for i in range(1 + n, len(data), 2):
        if "min_lambda" in data[i]:
            lo = float(data[i + 1])
        elif "max_lambda" in data[i]:
            hi = float(data[i + 1])
        elif "version" in data[i]:
            if int(data[i + 1]) != 1:
                raise RuntimeError()
    return SALT2ColorLaw(lo, hi, np.array(data[1 : (1 + n)], dtype=float))
""", header="from lightcurvelynx.astro_utils.salt2_color_law import SALT2ColorLaw\n", uninterp=("SALT2ColorLaw.__init__",))
    r(m("SALT2ColorLaw", "apply"), """
def f(self, wavelengths):
    n = len(wavelengths)
    x = (wavelengths - 4302.57) * (1.0 / (5428.55 - 4302.57))
    mid = jnp.sum((jnp.tile(self.coeffs, (n, 1)) * jnp.power(jnp.reshape(x, (n, 1)), self.exponents)).T, axis=0)
    lo = self.value_at_min + self.deriv_at_min * (x - self.scaled_wave_min)
    hi = self.value_at_max + self.deriv_at_max * (x - self.scaled_wave_max)
    return -jnp.where(x < self.scaled_wave_min, lo, jnp.where(x > self.scaled_wave_max, hi, mid))
""", header="import jax.numpy as jnp\n")
    r(cx.P.func("_kernel_value"), """
def f(input_vals):
    x = jnp.abs(input_vals)
    return jnp.where(x > 2, 0.0, jnp.where(x < 1, 1.5 * x**3 - 2.5 * x**2 + 1, -0.5 * x**3 + 2.5 * x**2 - 4 * x + 2))
""", header="import jax.numpy as jnp\n")
    r(cx.P.func("_compute_linear"), """
def f(ix, iy, ax, ay, z_vals):
    return (1 - ax) * ((1 - ay) * z_vals[ix][iy] + ay * z_vals[ix][iy + 1]) + ax * ((1 - ay) * z_vals[ix + 1][iy] + ay * z_vals[ix + 1][iy + 1])
""", strip=False)
    body = "\n".join(f"    s = s + wx[{i}] * wy[{j}] * z_vals[ix + {i - 1}][iy + {j - 1}]" for i in range(4) for j in range(4))
    r(cx.P.func("_compute_cubic"), f"""
def f(ix, iy, dx, dy, z_vals):
    wx = _kernel_value(jnp.asarray([dx - 1.0, dx, dx + 1.0, dx + 2.0]))
    wy = _kernel_value(jnp.asarray([dy - 1.0, dy, dy + 1.0, dy + 2.0]))
    s = 0
{body}
    return s
""", strip=False, header="import jax.numpy as jnp\nfrom lightcurvelynx.utils.bicubic_interp import _kernel_value\n", uninterp=("_kernel_value",))
    r(m("BicubicInterpolator", "__call__"), """
def f(self, x_q, y_q):
    ix = self.x_vals.find_indices(x_q)
    iy = self.y_vals.find_indices(y_q)
    xi, yi = expand_to_cross_products(ix, iy)
    wx, wy = expand_to_cross_products((x_q - self.x_vals.values[ix]) / (self.x_vals.values[ix + 1] - self.x_vals.values[ix]),
                                      (y_q - self.y_vals.values[iy]) / (self.y_vals.values[iy + 1] - self.y_vals.values[iy]))
    lin = self._compute_linear(xi, yi, wx, wy, self.z_vals)
    dx, dy = expand_to_cross_products((self.x_vals.values[ix] - x_q) / (self.x_vals.values[ix + 1] - self.x_vals.values[ix]),
                                      (self.y_vals.values[iy] - y_q) / (self.y_vals.values[iy + 1] - self.y_vals.values[iy]))
    cub = self._compute_cubic(xi, yi, dx, dy, self.z_vals)
    xo, yo = expand_to_cross_products(self.x_vals.out_of_bounds(x_q), self.y_vals.out_of_bounds(y_q))
    xe, ye = expand_to_cross_products((ix == 0) | (ix > self.x_vals.num_vals - 3), (iy == 0) | (iy > self.y_vals.num_vals - 3))
    return jnp.where(xo | yo, 0.0, jnp.where(xe | ye, lin, cub)).reshape(len(x_q), len(y_q))
""", header="import jax.numpy as jnp\nfrom lightcurvelynx.utils.bicubic_interp import expand_to_cross_products\n", strip=False,
      uninterp=("expand_to_cross_products", "find_indices", "out_of_bounds"))
    r(cx.P.func("expand_to_cross_products"), """
def f(x_vals, y_vals):
    g = jnp.meshgrid(x_vals, y_vals, indexing="ij")
    return jnp.ravel(g[0]), jnp.ravel(g[1])
""", header="import jax.numpy as jnp\n", strip=False)
    r(m("BicubicAxis", "find_indices"), """
def f(self, query_pts):
    i = self._initial_search(query_pts)
    i = jnp.where(i < 0, 0, i)
    return jnp.where(i >= self.num_vals - 1, self.num_vals - 2, i)
""", header="import jax.numpy as jnp\n")
    r(m("BicubicAxis", "out_of_bounds"), "def f(self, values):\n    return (values < self.min_val) | (values > self.max_val)")
    r(m("BicubicAxis", "_search_regular"), "def f(self, query_pts):\n    return jnp.floor((query_pts - self.min_val) / self.step_size).astype(int)", header="import jax.numpy as jnp\n")
    r(m("BicubicAxis", "_search_nonregular"), "def f(self, query_pts):\n    return jnp.searchsorted(self.values, query_pts, side='right') - 1", header="import jax.numpy as jnp\n")
    r(m("BicubicAxis", "__init__"), """
def f(self, values):
    if len(values.shape) != 1:
        raise ValueError()
    if len(values) < 3:
        raise ValueError()
    if np.any(values[:-1] >= values[1:]):
        raise ValueError()
    self.values = values
    self.num_vals = len(values)
    self.min_val = values[0]
    self.max_val = values[-1]
    st = values[1:] - values[:-1]
    self.regular_steps = not (np.max(st) - np.min(st) > 1e-6)
    self.step_size = 0.5 * np.min(st) + 0.5 * np.max(st) if self.regular_steps else None
    self._initial_search = self._search_regular if self.regular_steps else self._search_nonregular
""", strip=False, attrs=("values", "num_vals", "min_val", "max_val", "step_size", "regular_steps", "_initial_search"))
    r(m("BicubicInterpolator", "from_grid_file"), """
def f(cls, filename, scale_factor=1.0):
    x, y, z = read_grid_data(filename)
    return BicubicInterpolator(x, y, z * scale_factor)
""", header="from lightcurvelynx.utils.io_utils import read_grid_data\nfrom lightcurvelynx.utils.bicubic_interp import BicubicInterpolator\n",
      uninterp=("read_grid_data", "BicubicInterpolator"))


def dust(cx):
    r = Ref(cx, "dust")
    m = cx.P.method
    r(m("DustmapWrapper", "compute_ebv"), """
def f(self, ra, dec):
    if self._dust_map is None:
        raise ValueError()
    v = self._dust_map.query(SkyCoord(ra, dec, frame="icrs", unit="deg"))
    if self._ebv_func is not None:
        return self._ebv_func(v)
    return v
""", header="from astropy.coordinates import SkyCoord\n")
    r(m("ConstantHemisphereDustMap", "compute_ebv"), "def f(self, ra, dec):\n    return np.where(dec < 0, self.south_ebv, self.north_ebv)")
    r(m("ConstantHemisphereDustMap", "query"), "def f(self, coords):\n    return self.compute_ebv(coords.ra.deg, coords.dec.deg)", uninterp=("compute_ebv",))
    r(m("SFDMap", "compute_ebv"), "def f(self, ra, dec):\n    return self.dustmap.ebv(ra, dec)")


def effects(cx):
    r = Ref(cx, "effects")
    m = cx.P.method
    for cls, p, src in (("ConstantDimming", "flux_fraction", "{x} * flux_fraction"), ("WhiteNoise", "white_noise_sigma", "rng_info.normal(loc={x}, scale=white_noise_sigma)")):
        body = f"    if {p} is None:\n        raise ValueError()\n"
        if cls == "WhiteNoise":
            body += "    if rng_info is None:\n        rng_info = np.random.default_rng()\n"
        r(m(cls, "apply"), f"def f(self, flux_density, times=None, wavelengths=None, {p}=None, rng_info=None, **kwargs):\n{body}    return {src.format(x='flux_density')}")
        r(m(cls, "apply_bandflux"), f"def f(self, bandfluxes, *, times=None, filters=None, {p}=None, rng_info=None, **kwargs):\n{body}    return {src.format(x='bandfluxes')}")
    r(m("ExtinctionEffect", "apply"), """
def f(self, flux_density, times=None, wavelengths=None, ebv=None, **kwargs):
    if ebv is None:
        raise ValueError()
    if wavelengths is None:
        raise ValueError()
    return flux_density * self.extinction_model.extinguish(wavelengths * u.angstrom, Ebv=ebv)
""", header=CST)
    body = """
    if not apply_microlensing:
        return {x}
    if microlensing_t0 is None:
        raise ValueError()
    if u_0 is None:
        raise ValueError()
    if t_E is None:
        raise ValueError()
    return {x} * np.asarray(self.VBM.PSPLLightCurve([np.log(u_0), np.log(t_E), microlensing_t0], times)[0])
"""
    r(m("Microlensing", "apply"), "def f(self, flux_density, times=None, wavelengths=None, *, apply_microlensing=None, microlensing_t0=None, u_0=None, t_E=None, rng_info=None, **kwargs):"
      + body.format(x="flux_density"))
    r(m("Microlensing", "apply_bandflux"), "def f(self, bandfluxes, *, apply_microlensing=None, microlensing_t0=None, u_0=None, t_E=None, times=None, filters=None, rng_info=None, **kwargs):"
      + body.format(x="bandfluxes"))
