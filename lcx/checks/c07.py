"""C07: every effect of a model is applied exactly once, in order, in its frame, with its parameters."""

EXPLAIN = """The evaluation pipeline of every model class is value-numbered and compared, loop for loop, with a reference pipeline;
effect registration is compared through the calls that register parameters and the list that receives the effect."""

from ..refs import Ref

SED = """
def f(self, times, wavelengths, state, rng_info=None, **kwargs):
    if state is None or state.num_samples != 1:
        raise ValueError()
    params = self.get_local_params(state)
    t, w = times, wavelengths
    if self.apply_redshift and params["redshift"] != 0.0:
        if params["redshift"] is None:
            raise ValueError()
        if params.get("t0", None) is None:
            raise ValueError()
        t = (times - params["t0"]) / (1 + params["redshift"]) + params["t0"]
        w = wavelengths / (1 + params["redshift"])
    flux = self.compute_sed_with_extrapolation(t, w, state, rng_info=rng_info, **kwargs)
    for effect in self.rest_frame_effects:
        flux = effect.apply(flux, times=t, wavelengths=w, rng_info=rng_info, **params)
    if self.apply_redshift and params["redshift"] != 0.0:
        flux = flux * (1 + params["redshift"])
    for effect in self.obs_frame_effects:
        flux = effect.apply(flux, times=times, wavelengths=wavelengths, rng_info=rng_info, **params)
    return flux
"""

BAND = """
def f(self, passband_group, times, filters, state, rng_info=None):
    params = self.get_local_params(state)
    flux = self.compute_bandflux(times, filters, state, rng_info=rng_info)
    for effect in self.band_pass_effects:
        flux = effect.apply_bandflux(flux, times=times, filters=filters, rng_info=rng_info, **params)
    return flux
"""

ADD_SED = """
def f(self, times, wavelengths, state, rng_info=None, **kwargs):
    if self._any_bandflux:
        raise TypeError()
    flux = np.zeros((len(times), len(wavelengths)))
    for obj, weight in zip(self.objects, self.weights):
        flux = flux + weight * obj._evaluate_single(times, wavelengths, state, rng_info=rng_info, **kwargs)
    params = self.get_local_params(state)
    for effect in self.obs_frame_effects:
        flux = effect.apply(flux, times=times, wavelengths=wavelengths, rng_info=rng_info, **params)
    return flux
"""

ADD_BAND = """
def f(self, passband_group, times, filters, state, rng_info=None):
    flux = np.zeros(len(times))
    for obj, weight in zip(self.objects, self.weights):
        flux = flux + weight * obj._evaluate_bandfluxes_single(passband_group, times, filters, state, rng_info=rng_info)
    params = self.get_local_params(state)
    for effect in self.obs_frame_effects:
        flux = effect.apply_bandflux(flux, times=times, filters=filters, rng_info=rng_info, **params)
    return flux
"""

RND_SED = """
def f(self, times, wavelengths, state, rng_info=None, **kwargs):
    if self._any_bandflux:
        raise TypeError()
    obj = self.object_map[self.get_param(state, "selected_object")]
    flux = obj._evaluate_single(times, wavelengths, state, rng_info=rng_info, **kwargs)
    params = self.get_local_params(state)
    for effect in self.obs_frame_effects:
        flux = effect.apply(flux, times=times, wavelengths=wavelengths, rng_info=rng_info, **params)
    return flux
"""

RND_BAND = """
def f(self, passband_group, times, filters, state, rng_info=None):
    obj = self.object_map[self.get_param(state, "selected_object")]
    flux = obj._evaluate_bandfluxes_single(passband_group, times, filters, state, rng_info=rng_info)
    params = self.get_local_params(state)
    for effect in self.obs_frame_effects:
        flux = effect.apply_bandflux(flux, times=times, filters=filters, rng_info=rng_info, **params)
    return flux
"""


def run(cx):
    cx.rule("sed-pipeline", "rest-frame effects once each, in list order, at rest-frame times and wavelengths, before the redshift factor; observer-frame effects after it", sed, cx)
    cx.rule("bandflux-pipeline", "band-flux models apply each effect once, in order, to the computed band fluxes", band, cx)
    cx.rule("composite-pipeline", "composite models apply observer-frame effects once, to the combined flux", multi, cx)
    cx.rule("registration", "adding an effect stores it once in the list of its frame and registers each of its parameters that the model lacks", reg, cx)
    cx.rule("effect-construction", "an effect keeps its frame and every parameter setter it was built with", ctor, cx)


ADD = """
def f(self, effect, skip_params=False):
    if not skip_params:
        for name, setter in effect.parameters.items():
            if name not in self.setters:
                self.add_parameter(name, setter, allow_gradient=False)
    if effect.rest_frame:
        self.rest_frame_effects.append(effect)
    else:
        self.obs_frame_effects.append(effect)
"""
ADD_B = """
def f(self, effect, skip_params=False):
    if not skip_params:
        for name, setter in effect.parameters.items():
            if name not in self.setters:
                self.add_parameter(name, setter, allow_gradient=False)
    self.band_pass_effects.append(effect)
"""
ADD_M = """
def f(self, effect):
    if effect.rest_frame:
        for obj in self.objects:
            obj.add_effect(effect)
    else:
        for name, setter in effect.parameters.items():
            if name not in self.setters:
                self.add_parameter(name, setter, allow_gradient=False)
        self.obs_frame_effects.append(effect)
"""


def reg(cx):
    r = Ref(cx, "registration")
    k = dict(uninterp=("add_parameter",), calls=("add_parameter", "append", "add_effect"))
    r(cx.P.method("SEDModel", "add_effect"), ADD, **k)
    r(cx.P.method("BandfluxModel", "add_effect"), ADD_B, **k)
    r(cx.P.method("MultiObjectModel", "add_effect"), ADD_M, **k)
    r(cx.P.method("SEDModel", "list_effects"), "def f(self):\n    return self.rest_frame_effects + self.obs_frame_effects")
    r(cx.P.method("BandfluxModel", "list_effects"), "def f(self):\n    return self.band_pass_effects")


def ctor(cx):
    r = Ref(cx, "effect-construction")
    f = cx.P.method("EffectModel", "__init__")
    r(f, """
def f(self, *, rest_frame=True, effect_name=None, **kwargs):
    self.rest_frame = rest_frame
    self.parameters = {}
    for key, value in kwargs.items():
        self.parameters[key] = value
""", attrs=("rest_frame", "parameters"))
    r(cx.P.method("EffectModel", "add_effect_parameter"), """
def f(self, name, setter):
    self.parameters[name] = setter
""", attrs=("parameters",))
    k = dict(uninterp=("add_effect_parameter",), calls=("add_effect_parameter",))
    for cls, ps in (("ConstantDimming", ["flux_fraction"]), ("WhiteNoise", ["white_noise_sigma"])):
        f = cx.P.method(cls, "__init__")
        body = "".join(f"    self.add_effect_parameter({p!r}, {p})\n" for p in ps)
        r(f, f"def f(self, {', '.join(ps)}, **kwargs):\n    super().__init__(**kwargs)\n{body}", attrs=("rest_frame",), **k)
    r(cx.P.method("ExtinctionEffect", "__init__"), """
def f(self, extinction_model=None, ebv=None, frame=None, **kwargs):
    super().__init__(**kwargs)
    self.add_effect_parameter("ebv", ebv)
    if frame == "observer":
        self.rest_frame = False
    elif frame == "rest":
        self.rest_frame = True
    else:
        raise ValueError()
""", attrs=("rest_frame",), **k)
    r(cx.P.method("Microlensing", "__init__"), """
def f(self, microlensing_t0, u_0, t_E, probability=1.0, **kwargs):
    super().__init__(**kwargs, rest_frame=False)
    self.add_effect_parameter("microlensing_t0", microlensing_t0)
    self.add_effect_parameter("u_0", u_0)
    self.add_effect_parameter("t_E", t_E)
    if probability < 1.0:
        self.add_effect_parameter("apply_microlensing", BinarySampler(probability))
    else:
        self.add_effect_parameter("apply_microlensing", True)
""", attrs=("rest_frame",), header="from lightcurvelynx.math_nodes.given_sampler import BinarySampler\n", **k)


def sed(cx):
    r = Ref(cx, "sed-pipeline")
    f = cx.P.method("SEDModel", "_evaluate_single")
    r(f, SED, uninterp=("compute_sed_with_extrapolation", "compute_sed", "get_local_params"))


def band(cx):
    r = Ref(cx, "bandflux-pipeline")
    r(cx.P.method("BandfluxModel", "_evaluate_bandfluxes_single"), BAND, uninterp=("compute_bandflux", "get_local_params"))


def multi(cx):
    r = Ref(cx, "composite-pipeline")
    un = ("get_local_params", "get_param")
    r(cx.P.method("AdditiveMultiObjectModel", "_evaluate_single"), ADD_SED, uninterp=un)
    r(cx.P.method("AdditiveMultiObjectModel", "_evaluate_bandfluxes_single"), ADD_BAND, uninterp=un)
    r(cx.P.method("RandomMultiObjectModel", "_evaluate_single"), RND_SED, uninterp=un)
    r(cx.P.method("RandomMultiObjectModel", "_evaluate_bandfluxes_single"), RND_BAND, uninterp=un)
