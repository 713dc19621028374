"""C14: the noise model contains every documented contribution, computed from the row's own columns and the survey's own settings."""

EXPLAIN = """Value-numbering of the noise model, of every survey's point-source error and of the zero-point derivations; the extracted
algebraic terms are compared, region by region, with the documented formulas written over the observation's columns (col.*) and the
survey settings (sv.*). Constructor interpretation shows which source wins for each survey setting."""

from ..ctx import loc
from ..interp import St, V, show
from ..norm import Norm, formula, subterms
from ..specs import columns_rw, table_rw

NM = ZP = ""
NOT_CALLABLE = lambda t: ("not", ("call", "callable", t))


def run(cx):
    cx.rule("noise-formula", "the bandflux standard deviation is zp*sqrt(source + sky + readout + dark) with every variance scaled as documented",
            noise, cx)
    cx.rule("apply-noise", "noisy fluxes are Gaussian draws centred on the given flux with the given error as standard deviation", applied, cx)
    for cls in ("OpSim", "ZTFObsTable", "RomanObsTable", "FakeObsTable"):
        cx.rule(f"survey:{cls}", "the survey's point-source error feeds the noise model with the selected rows' columns and the survey's settings",
                survey, cx, cls)
        cx.rule(f"settings:{cls}", "an explicitly supplied survey setting wins over stored metadata, which wins over the class default", settings, cx, cls)
    cx.rule("zp:mag", "instrumental + extinction*(airmass-1) + 2.5 log10(exposure)", zp_mag, cx)
    cx.rule("zp:flux", "the flux zero point is the AB flux of the magnitude zero point", zp_flux, cx)
    cx.rule("zp:maglim", "the zero point reproduces the 5-sigma limit of the full noise budget", zp_maglim, cx)
    cx.rule("zp:OpSim", "zero points come from the table's filter, airmass and exposure and the survey's settings", zp_opsim, cx)
    cx.rule("zp:ZTFObsTable", "zero points come from the table's columns and the survey's settings", zp_ztf, cx)
    cx.rule("zp:FakeObsTable", "each row receives the zero point of its own filter", zp_fake, cx)
    cx.rule("roman-noise", "documented Roman read noise and sky noise", roman, cx)


def fn(cx, q, **given):
    it = cx.interp()
    f = cx.P.func(q)
    r, st = it.run(f, given=given)
    cx.done(it)
    return f, it.T(r, st), it, st


def noise(cx):
    f, t, it, st = fn(cx, NM + "poisson_bandflux_std")
    base = "sqrt(bandflux/zp + sky*psf_footprint + {ro} + dark_current*total_exposure_time*psf_footprint)*zp"
    ro = ("s", "readout_noise")
    cx.compare("noise-formula", "poisson_bandflux_std", cx.where(f), t, formula(base.format(ro="readout_noise**2*psf_footprint*exposure_count")),
               given=[NOT_CALLABLE(ro)], what="flux error for a numeric readout noise")
    calls = [x for x in subterms(t) if x[0] == "call" and x[1] == ro]
    if calls:
        want = formula(base.format(ro="RO**2"), RO=("call", ro, ("s", "total_exposure_time")))
        cx.compare("noise-formula", "poisson_bandflux_std:callable", cx.where(f), t, want, given=[("call", "callable", ro)],
                   ok_funcs=("callable",), what="flux error for a callable readout noise")


def applied(cx):
    it = cx.interp()
    f = cx.P.func(NM + "apply_noise")
    r, st = it.run(f, given={})
    cx.done(it)
    draws = [e for e in it.events if e.kind == "mcall" and e.name in ("normal", "standard_normal")]
    n = 0
    for e in draws:
        a = dict(zip(("loc", "scale", "size") if e.name == "normal" else ("size",), e.args))
        a.update(e.kw)
        free = {x[1] for v in a.values() for x in subterms(it.T(v, st)) if x and x[0] == "s"}
        if not free & {"bandflux", "bandflux_err"} and e.star == (None, None) and ("size" not in a or it.T(a["size"], st) in (("k", None), ("k", 1), ("tuple",))):
            cx.bad("apply-noise", "apply_noise:one-draw", loc(e), "one random number is drawn for all the fluxes")
        else:
            cx.ok("apply-noise", "apply_noise:one-draw", loc(e))
        if e.name == "normal":
            a = dict(zip(("loc", "scale", "size"), e.args))
            a.update(e.kw)
            lo = it.T(a["loc"], st) if "loc" in a else ("k", 0)
            sc = it.T(a["scale"], st) if "scale" in a else ("k", 1)
            nm = ("mcall", "normal")
            res = it.T(r, st)
            # result = draw, possibly shifted / scaled
            x = ("s", "#draw")

            def sub(t):
                if isinstance(t, tuple) and t[:2] == nm:
                    return ("bin", "+", lo, ("bin", "*", sc, x))
                return tuple(sub(y) if isinstance(y, tuple) else y for y in t)

            cx.compare("apply-noise", "apply_noise", loc(e), sub(res), formula("bandflux + bandflux_err*D", D=x), what="noisy flux")
            n += 1
        else:
            x = ("s", "#draw")

            def sub2(t):
                if isinstance(t, tuple) and t[:2] == ("mcall", "standard_normal"):
                    return x
                return tuple(sub2(y) if isinstance(y, tuple) else y for y in t)

            cx.compare("apply-noise", "apply_noise", loc(e), sub2(it.T(r, st)), formula("bandflux + bandflux_err*D", D=x), what="noisy flux")
            n += 1
    if not n:
        cx.unk("apply-noise", "apply_noise", cx.where(f), "no Gaussian draw recognised")


A = "(pi/(2*log(2)))"
SPEC = {
    "OpSim": dict(bandflux="bandflux", texp="col_exptime", n="col_nexposure", psf=f"({A}*(col_seeing/sv_pixel_scale)**2)",
                  sky="(10**(-0.4*(col_skybrightness-31.4))*sv_pixel_scale**2/col_zp)", zp="col_zp", ro="sv_read_noise", dark="sv_dark_current"),
    "ZTFObsTable": dict(texp="col_exptime", n="1", psf=f"({A}*col_fwhm**2)", sky="(col_sky*sv_gain)", zp="col_zp", ro="sv_read_noise", dark="sv_dark_current"),
    "RomanObsTable": dict(texp="col_exptime", n="1", psf="col_N_Eff_Pix",
                          sky="(col_exptime*(sv_zodi_level*col_zodi_countrate_min + col_thermal_countrate))", zp="(col_zp/col_exptime)", ro=None, dark="sv_dark_current"),
    "FakeObsTable": dict(texp="col_exptime", n="col_nexposure", psf="col_psf_footprint", sky="col_sky", zp="col_zp", ro="sv_read_noise", dark="sv_dark_current"),
}
BINDS = ("total_exposure_time", "exposure_count", "psf_footprint", "sky", "zp", "readout_noise", "dark_current")


def names(src):
    import re
    d = {}
    for m in re.findall(r"\b(?:col|sv)_\w+", src):
        k, rest = m.split("_", 1)
        d[m] = ("s", f"{k}.{rest}")
    return d


def survey(cx, cls):
    """The arguments handed to the noise model, each compared with its documented source, plus the composed result."""
    sp = SPEC[cls]
    c = cx.P.cls(cls)
    f = c.find("bandflux_error_point_source")
    it = cx.interp()
    st = St({}, {}, ())
    sv = cx.self_obj(it, st, c)
    st.heap["self"] = st.heap["self"].clone()
    NMF = cx.P.func(NM + "poisson_bandflux_std")
    rw = table_rw()
    r, st = it.run(f, selfv=sv, st=st)
    cx.done(it)
    calls = [e for e in it.events if e.kind == "call" and e.targets is not None and e.targets.qual == NMF.qual]
    if not calls:
        return cx.unk(f"survey:{cls}", f"{cls}:noise-call", cx.where(f), "the noise model is not called directly")
    for e in calls:
        a = dict(zip(NMF.params, e.args))
        a.update(e.kw)
        want = {"bandflux": "bandflux", "total_exposure_time": sp["texp"], "exposure_count": sp["n"], "psf_footprint": sp["psf"], "sky": sp["sky"],
                "zp": sp["zp"], "readout_noise": sp["ro"], "dark_current": sp["dark"]}
        for k, src in want.items():
            if src is None:
                continue
            if k not in a:
                cx.unk(f"survey:{cls}", f"{cls}:{k}", loc(e), "argument not passed explicitly")
                continue
            cx.compare(f"survey:{cls}", f"{cls}:{k}", loc(e), it.T(a[k], st), formula(src, **names(src)), rw=rw, what=f"{k} of the {cls} error")
    # the value returned is the noise model's value (possibly selected against a configured constant error)
    t = it.T(r, st)
    full = "sqrt({bandflux}/{zp} + {sky}*{psf} + {ro2} + {dark}*{texp}*{psf})*{zp}"
    if sp["ro"]:
        ro2 = f"{sp['ro']}**2*{sp['psf']}*{sp['n']}"
        src = full.format(ro2=ro2, **{**sp, "bandflux": "bandflux"})
        given = [NOT_CALLABLE(("s", "sv.read_noise"))]
        if cls == "FakeObsTable":
            given.append(("cmp", "is", ("attr", ("s", "self"), "const_flux_error"), ("k", None)))
        cx.compare(f"survey:{cls}", f"{cls}:result", cx.where(f), t, formula(src, **names(src)), rw=rw, given=given, what=f"{cls} flux error")
    if cls == "FakeObsTable":
        key = ("s", "col.filter")
        want = ("item", ("attr", ("s", "self"), "const_flux_error"), key)
        cx.compare(f"survey:{cls}", f"{cls}:constant", cx.where(f), t, want, rw=rw,
                   given=[("cmp", "isnot", ("attr", ("s", "self"), "const_flux_error"), ("k", None))], what="constant flux error of the row's own filter")


def settings(cx, cls):
    c = cx.P.cls(cls)
    base = cx.P.cls("ObsTable")
    init = c.find("__init__")
    for key in ("dark_current", "read_noise", "radius", "pixel_scale", "zodi_level", "gain"):
        it = cx.interp()
        st = St({}, {}, ())
        arg = V(t=("s", "EXPLICIT"), g=frozenset(["EXPLICIT"]), n="V")
        given = {}
        if key in init.call_params():
            given[key] = arg
            given["zz_other"] = V(t=("s", "KW"), g=frozenset(["KW"]), n="V")
        else:
            given[key] = arg
        if key not in init.call_params() and not init.kwarg:
            continue
        v = it.sym_obj(st, c, "self")
        st.heap["self"].sym = None
        _, st = it.run(init, selfv=v, st=st, given=given, sym_prefix="arg.")
        cx.done(it)
        h = st.heap.get("self")
        svv = h.d.get("survey_values") if h is not None else None
        so = it.single_obj(svv, st) if svv is not None else None
        if so is None or so[1].kind != "dict":
            cx.unk(f"settings:{cls}", f"{cls}:{key}", cx.where(init), "survey settings not tracked")
            continue
        d = so[1]
        got = d.d.get(key)
        if got is None:
            got = d.summ
        if got is None:
            cx.unk(f"settings:{cls}", f"{cls}:{key}", cx.where(init), "setting not tracked")
        elif "EXPLICIT" in it.all_tags(got, st):
            cx.ok(f"settings:{cls}", f"{cls}:{key}", cx.where(init))
        else:
            cx.bad(f"settings:{cls}", f"{cls}:{key}", cx.where(init), f"a supplied {key} does not reach the survey settings of {cls}")


def zp_mag(cx):
    f, t, it, st = fn(cx, ZP + "magnitude_electron_zeropoint", **{k: V(t=("s", k), n="V") for k in ("instr_zp", "ext_coeff")})
    src = "instr_zp[band] + ext_coeff[band]*(airmass-1) + 2.5*log10(exptime)"
    S = lambda n: ("s", n)
    cx.compare("zp:mag", "magnitude_electron_zeropoint", cx.where(f), t, formula(src),
               given=[("cmp", "isnot", S("instr_zp"), ("k", None)), ("cmp", "isnot", S("ext_coeff"), ("k", None)),
                      ("cmp", "in", S("band"), S("instr_zp")), ("cmp", "in", S("band"), S("ext_coeff"))], what="magnitude zero point")


def zp_flux(cx):
    f, t, it, st = fn(cx, ZP + "flux_electron_zeropoint", **{k: V(t=("s", k), n="V") for k in ("instr_zp_mag", "ext_coeff")})
    src = "10**(-0.4*(instr_zp_mag[band] + ext_coeff[band]*(airmass-1) + 2.5*log10(exptime) - 31.4))"
    S = lambda n: ("s", n)
    cx.compare("zp:flux", "flux_electron_zeropoint", cx.where(f), t, formula(src),
               given=[("cmp", "isnot", S("instr_zp_mag"), ("k", None)), ("cmp", "isnot", S("ext_coeff"), ("k", None)),
                      ("cmp", "in", S("band"), S("instr_zp_mag")), ("cmp", "in", S("band"), S("ext_coeff"))], what="flux zero point")


MAGLIM = ("2.5*log10(12.5 + 2.5*sqrt(25 + 4*({sky}*2.266*{fwhm}**2*{gain} + {ro}**2*{n}*2.266*{fwhm}**2 + {dark}*2.266*{fwhm}**2*{texp}*{n}))) + {maglim}")


def zp_maglim(cx):
    f, t, it, st = fn(cx, ZP + "calculate_zp_from_maglim")
    src = MAGLIM.format(sky="sky", fwhm="fwhm", gain="gain", ro="readnoise", n="nexposure", dark="darkcurrent", texp="exptime", maglim="maglim")
    cx.compare("zp:maglim", "calculate_zp_from_maglim", cx.where(f), t, formula(src), what="zero point from limiting magnitude")


def assigned(cx, cls):
    c = cx.P.cls(cls)
    f = c.find("_assign_zero_points")
    if f is None or f.cls is not c:
        return None
    it = cx.interp()
    st = St({}, {}, ())
    sv = cx.self_obj(it, st, c)
    _, st = it.run(f, selfv=sv, st=st)
    cx.done(it)
    out = [e for e in it.events if e.kind == "setitem" and e.args and it.T(e.args[0], st) == ("k", "zp")]
    return f, it, st, out


def zp_opsim(cx):
    r = assigned(cx, "OpSim")
    if not r or not r[3]:
        return cx.unk("zp:OpSim", "OpSim:zp", "", "no zero-point column assignment found")
    f, it, st, out = r
    S = lambda n: ("s", n)
    for e in out:
        src = "10**(-0.4*(Z[col_filter] + X[col_filter]*(col_airmass-1) + 2.5*log10(col_exptime) - 31.4))"
        cx.compare("zp:OpSim", "OpSim:zp", loc(e), it.T(e.args[1], st), formula(src, Z=S("sv.zp_per_sec"), X=S("sv.ext_coeff"), **names(src)), rw=columns_rw(),
                   given=[("cmp", "in", S("col.filter"), S("sv.zp_per_sec")), ("cmp", "in", S("col.filter"), S("sv.ext_coeff")),
                          ("cmp", "isnot", S("sv.zp_per_sec"), ("k", None)), ("cmp", "isnot", S("sv.ext_coeff"), ("k", None))], what="OpSim zero point")


def zp_ztf(cx):
    r = assigned(cx, "ZTFObsTable")
    if not r or not r[3]:
        return cx.unk("zp:ZTFObsTable", "ZTFObsTable:zp", "", "no zero-point column assignment found")
    f, it, st, out = r
    for e in out:
        src = "10**(-0.4*(" + MAGLIM.format(sky="col_sky", fwhm="col_fwhm", gain="sv_gain", ro="sv_read_noise", n="1", dark="sv_dark_current",
                                            texp="col_exptime", maglim="col_maglim") + " - 31.4))"
        cx.compare("zp:ZTFObsTable", "ZTFObsTable:zp", loc(e), it.T(e.args[1], st), formula(src, **names(src)), rw=columns_rw(), what="ZTF zero point")


def zp_fake(cx):
    r = assigned(cx, "FakeObsTable")
    if not r:
        return cx.unk("zp:FakeObsTable", "FakeObsTable:zp", "", "not found")
    f, it, st, out = r
    rw = columns_rw()
    n = Norm(rw=rw)
    seen = False
    for e in it.events:
        if e.kind != "setitem":
            continue
        k, v = n.prep(it.T(e.args[0], st)), n.prep(it.T(e.args[1], st))
        if k[0] == "cmp" and k[1] == "==" and ("s", "col.filter") in k:
            band = k[3] if k[2] == ("s", "col.filter") else k[2]
            seen = True
            ok = v == ("item", ("attr", ("s", "self"), "zp_per_band"), band) or v[0] == "val" or (v[0] == "item" and v[2] == band)
            if ok:
                cx.ok("zp:FakeObsTable", "FakeObsTable:zp", loc(e))
            elif v[0] == "item":
                cx.bad("zp:FakeObsTable", "FakeObsTable:zp", loc(e), f"rows of filter {show(band)[:40]} receive {show(v)[:80]}")
            else:
                cx.unk("zp:FakeObsTable", "FakeObsTable:zp", loc(e), show(v)[:100])
    if not seen:
        cx.unk("zp:FakeObsTable", "FakeObsTable:zp", cx.where(f), "no per-filter assignment recognised")


def roman(cx):
    c = cx.P.cls("RomanObsTable")
    for m, src in (("readnoise_func", "sqrt(25 + 3072*((exptime/3.04-1)/(exptime/3.04)/(exptime/3.04+1)))"),
                   ("calculate_skynoise", "exptime*(zodi_scale*zodi_countrate_min + thermal_countrate)")):
        f = c.find(m)
        if f is None:
            continue
        it = cx.interp()
        st = St({}, {}, ())
        r, st = it.run(f, selfv=cx.self_obj(it, st, c), st=st)
        cx.done(it)
        cx.compare("roman-noise", f"RomanObsTable:{m}", cx.where(f), it.T(r, st), formula(src), what=m)
