import importlib
from functools import partial
import logging
import math
from pathlib import Path
from pkgutil import iter_modules
import astropy.units as uu
import dust_extinction
import h5py
import numpy as np
import pooch
import sncosmo
from astropy import units as u
from astropy import constants as const
from citation_compass import CiteClass, cite_inline
from scipy.interpolate import interp1d
from lightcurvelynx import _LIGHTCURVELYNX_BASE_DATA_DIR
from lightcurvelynx.astro_utils.noise_model import apply_noise
from lightcurvelynx.astro_utils.passbands import PassbandGroup
from lightcurvelynx.astro_utils.snia_utils import DistModFromRedshift, HostmassX1Func, X0FromDistMod, num_snia_per_redshift_bin
from lightcurvelynx.astro_utils.unit_utils import flam_to_fnu, fnu_to_flam
from lightcurvelynx.astro_utils.redshift import redshift_to_distance
from lightcurvelynx.effects.extinction import ExtinctionEffect
from lightcurvelynx.example_runs.simulate_snia import construct_snia_source, draw_single_random_sn, load_and_register_passband
from lightcurvelynx.math_nodes.bilby_priors import BilbyPriorNode
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.math_nodes.scipy_random import SamplePDF
from lightcurvelynx.models.physical_model import SEDModel
from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel
from lightcurvelynx.models.snia_host import SNIaHost

logger = logging.getLogger(__name__)



class BayesnModel:
    @ref('bayesn', attrs=('_W0_','_W1_','_l_knots_','_tau_knots_','_hsiao_phase','_hsiao_wave','_hsiao_flux'), uninterp=('SEDModel.__init__','add_parameter'), calls=('__init__','add_parameter'))
    def __init__(self, theta=None, Av=None, Rv=None, t0=0.0, Amplitude=1.0, _M20_model_path=_LIGHTCURVELYNX_BASE_DATA_DIR / 'bayesn-model-files/BAYESN.M20', W0_filename='W0.txt', W1_filename='W1.txt', l_knots_filename='l_knots.txt', tau_knots_filename='tau_knots.txt', hsiao_model_path=_LIGHTCURVELYNX_BASE_DATA_DIR / 'bayesn-model-files/hsiao.h5', **kwargs):
        super().__init__(t0=t0, **kwargs)
        self.add_parameter('theta', theta, **kwargs)
        self.add_parameter('Av', Av, **kwargs)
        self.add_parameter('Rv', Rv, **kwargs)
        self.add_parameter('Amplitude', Amplitude, **kwargs)
        self._W0_ = np.loadtxt(_M20_model_path / W0_filename)
        self._W1_ = np.loadtxt(_M20_model_path / W1_filename)
        self._l_knots_ = np.loadtxt(_M20_model_path / l_knots_filename)
        self._tau_knots_ = np.loadtxt(_M20_model_path / tau_knots_filename)
        with h5py.File(hsiao_model_path, 'r') as file:
            data = file['default']
            self._hsiao_phase = data['phase'][()].astype('float64')
            self._hsiao_wave = data['wave'][()].astype('float64')
            self._hsiao_flux = data['flux'][()].astype('float64')

    @ref('bayesn')
    def compute_invkd(self, x):
        n = len(x)
        K = np.zeros((n - 2, n - 2))
        D = np.zeros((n - 2, n))
        for j in range(1, n - 1):
            i = j - 1
            h0 = x[j] - x[j - 1]
            h1 = x[j + 1] - x[j]
            if i > 0:
                K[i, i - 1] = h0 / 6
            K[i, i] = (h0 + h1) / 3
            if i < n - 3:
                K[i, i + 1] = h1 / 6
        for j in range(1, n - 1):
            i = j - 1
            h0 = x[j] - x[j - 1]
            h1 = x[j + 1] - x[j]
            D[i, j - 1] = 1 / h0
            D[i, j] = -1 / h0 - 1 / h1
            D[i, j + 1] = 1 / h1
        invKD = np.zeros((n, n))
        invKD[1:-1, :] = np.linalg.solve(K, D)
        return invKD

    @ref('bayesn')
    def natural_cubic_spline_basis_matrix_from_invkd(self, x, xq_array, invKD):
        x = np.asarray(x)
        xq_array = np.asarray(xq_array)
        n = len(x)
        m = len(xq_array)
        J = np.zeros((m, n))
        idxs = np.searchsorted(x, xq_array) - 1
        idxs = np.clip(idxs, 0, n - 2)
        x0 = x[idxs]
        x1 = x[idxs + 1]
        h = x1 - x0
        a = (x1 - xq_array) / h
        b = 1 - a
        c = (a ** 3 - a) * h ** 2 / 6
        d = (b ** 3 - b) * h ** 2 / 6
        rows = np.arange(m)
        J[rows, idxs] = a
        J[rows, idxs + 1] = b
        J += c[:, None] * invKD[idxs] + d[:, None] * invKD[idxs + 1]
        return J

    @ref('bayesn')
    def compute_second_derivatives_1d(self, x, y):
        n = len(x)
        h = np.diff(x)
        alpha = np.zeros(n)
        for i in range(1, n - 1):
            alpha[i] = 3 / h[i] * (y[i + 1] - y[i]) - 3 / h[i - 1] * (y[i] - y[i - 1])
        wave = np.ones(n)
        mu = np.zeros(n)
        z = np.zeros(n)
        for i in range(1, n - 1):
            wave[i] = 2 * (x[i + 1] - x[i - 1]) - h[i - 1] * mu[i - 1]
            mu[i] = h[i] / wave[i]
            z[i] = (alpha[i] - h[i - 1] * z[i - 1]) / wave[i]
        M = np.zeros(n)
        for j in range(n - 2, 0, -1):
            M[j] = z[j] - mu[j] * M[j + 1]
        return 2 * M

    @ref('bayesn', uninterp=('compute_second_derivatives_1d',))
    def compute_2d_second_derivatives(self, x, y, z):
        n, m = (len(x), len(y))
        Mx = np.zeros((n, m))
        My = np.zeros((n, m))
        for j in range(m):
            Mx[:, j] = self.compute_second_derivatives_1d(x, z[:, j])
        for i in range(n):
            My[i, :] = self.compute_second_derivatives_1d(y, z[i, :])
        return (Mx, My)

    @ref('bayesn')
    def evaluate_natural_spline_2d_vectorized(self, x, y, z, Mx, My, xq, yq):
        xq = np.atleast_1d(xq)
        yq = np.atleast_1d(yq)
        nx, ny = (len(x), len(y))
        px, py = (len(xq), len(yq))
        xi_idx = np.clip(np.searchsorted(x, xq) - 1, 0, nx - 2)
        yj_idx = np.clip(np.searchsorted(y, yq) - 1, 0, ny - 2)
        Zq = np.zeros((px, py))
        for j in range(py):
            y0_idx = yj_idx[j]
            y1_idx = y0_idx + 1
            hy = y[y1_idx] - y[y0_idx]
            ay = (y[y1_idx] - yq[j]) / hy
            by = 1 - ay
            f_y0 = []
            f_y1 = []
            for i in range(px):
                x0_idx = xi_idx[i]
                x1_idx = x0_idx + 1
                hx = x[x1_idx] - x[x0_idx]
                ax = (x[x1_idx] - xq[i]) / hx
                bx = 1 - ax
                z00 = z[x0_idx, y0_idx]
                z10 = z[x1_idx, y0_idx]
                z01 = z[x0_idx, y1_idx]
                z11 = z[x1_idx, y1_idx]
                Mx00 = Mx[x0_idx, y0_idx]
                Mx10 = Mx[x1_idx, y0_idx]
                Mx01 = Mx[x0_idx, y1_idx]
                Mx11 = Mx[x1_idx, y1_idx]
                fx0 = (ax ** 3 * Mx00 + bx ** 3 * Mx10) * hx ** 2 / 6 + (ax * (z00 - Mx00 * hx ** 2 / 6) + bx * (z10 - Mx10 * hx ** 2 / 6))
                fx1 = (ax ** 3 * Mx01 + bx ** 3 * Mx11) * hx ** 2 / 6 + (ax * (z01 - Mx01 * hx ** 2 / 6) + bx * (z11 - Mx11 * hx ** 2 / 6))
                f_y0.append(fx0)
                f_y1.append(fx1)
            f_y0 = np.array(f_y0)
            f_y1 = np.array(f_y1)
            My0 = My[xi_idx, y0_idx]
            My1 = My[xi_idx, y1_idx]
            Zq[:, j] = (ay ** 3 * My0 + by ** 3 * My1) * hy ** 2 / 6 + (ay * (f_y0 - My0 * hy ** 2 / 6) + by * (f_y1 - My1 * hy ** 2 / 6))
        return Zq

    @ref('bayesn', uninterp=('compute_2d_second_derivatives','evaluate_natural_spline_2d_vectorized'))
    def evaluate_2d_cubic_spline(self, x, y, z, xq, yq):
        Mx, My = self.compute_2d_second_derivatives(x, y, z)
        return self.evaluate_natural_spline_2d_vectorized(x, y, z, Mx, My, xq, yq)

    @ref('bayesn', uninterp=('get_param','get_local_params'))
    def mask_by_time(self, times, graph_state=None):
        if graph_state is None:
            raise ValueError
        z = self.get_param(graph_state, 'redshift', 0.0)
        if z is None:
            z = 0.0
        t0 = self.get_param(graph_state, 't0', 0.0)
        if t0 is None:
            t0 = 0.0
        good_times = (times > t0 + -20.0 * (1.0 + z)) & (times < t0 + 50.0 * (1.0 + z))
        return good_times

    @ref('bayesn', uninterp=('get_param','get_local_params','flam_to_fnu','compute_invkd','natural_cubic_spline_basis_matrix_from_invkd','evaluate_2d_cubic_spline','ExtinctionEffect.__init__','load_extinction_model'))
    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
        W_0 = self._W0_
        W_1 = self._W1_
        l_knots = self._l_knots_
        tau_knots = self._tau_knots_
        hsiao_wave = self._hsiao_wave
        hsiao_phase = self._hsiao_phase
        hsiao_flux = self._hsiao_flux
        params = self.get_local_params(graph_state)
        tau = times - params['t0']
        W = W_0 + params['theta'] * W_1
        invKD_l = self.compute_invkd(l_knots)
        J_l = self.natural_cubic_spline_basis_matrix_from_invkd(l_knots, wavelengths, invKD_l)
        invKD_tau = self.compute_invkd(tau_knots)
        J_t = self.natural_cubic_spline_basis_matrix_from_invkd(tau_knots, tau, invKD_tau)
        J_t_T = np.atleast_2d(J_t).T
        WJt = np.matmul(W, J_t_T)
        W_grid = np.matmul(J_l, WJt)
        W_grid = np.atleast_2d(W_grid).T
        H_grid = self.evaluate_2d_cubic_spline(hsiao_phase, hsiao_wave, hsiao_flux, tau, wavelengths)
        flux_density = H_grid * 10 ** (-0.4 * W_grid)
        ebv = params['Av'] / params['Rv']
        ext = ExtinctionEffect(extinction_model='F99', ebv=ebv, frame='rest')
        flux_density = ext.apply(flux_density, tau, wavelengths, ebv)
        flux_density = flux_density * params['Amplitude']
        flux_density = flam_to_fnu(flux_density, wavelengths, wave_unit=u.AA, flam_unit=self._FLAM_UNIT, fnu_unit=u.nJy)
        return flux_density



class RedbackWrapperModel:
    @ref('redback', attrs=('source','source_name','source_param_names','apply_redshift'), uninterp=('SEDModel.__init__','BasePhysicalModel.__init__','add_parameter','set_parameter','BilbyPriorNode.__init__'), calls=('__init__','add_parameter','set_parameter'))
    def __init__(self, source, *, priors=None, parameters=None, **kwargs):
        if parameters is None:
            parameters = {}
        for key in parameters:
            if key in kwargs:
                raise ValueError
        super().__init__(**kwargs)
        parameters = parameters.copy()
        if priors is not None:
            if not isinstance(priors, BilbyPriorNode):
                priors = BilbyPriorNode(prior=priors)
            for param_name in priors.outputs:
                if param_name not in parameters:
                    parameters[param_name] = getattr(priors, param_name)
        self.source_param_names = []
        for key, value in parameters.items():
            if key in self.setters:
                self.set_parameter(key, value)
            else:
                self.add_parameter(key, value)
            self.source_param_names.append(key)
        if isinstance(source, str):
            try:
                import redback
            except ImportError as err:
                raise ImportError
            self.source_name = source
            self.source = redback.model_library.all_models_dict[source]
        else:
            self.source_name = source.__name__
            self.source = source
        if hasattr(self.source, 'citation'):
            cite_inline('redback model', self.source.citation)
        self.apply_redshift = False

    @ref('redback')
    def param_names(self):
        return self.source_param_names

    @ref('redback')
    def minwave(self, graph_state=None):
        return 0.0

    @ref('redback')
    def maxwave(self, graph_state=None):
        return math.inf

    @ref('redback', uninterp=('get_local_params','get_param','flam_to_fnu','compute_sed_with_extrapolation'), calls=('=source',))
    def compute_sed(self, times, wavelengths, graph_state=None, **kwargs):
        params = self.get_local_params(graph_state)
        fn_args = {}
        for name in self.source_param_names:
            fn_args[name] = params[name]
        t0 = params.get('t0', 0.0)
        if t0 is None:
            t0 = 0.0
        shifted_times = times - t0
        rb_result = self.source(shifted_times, output_format='sncosmo_source', **fn_args)
        if np.any(wavelengths < rb_result.minwave()) or np.any(wavelengths > rb_result.maxwave()):
            return self.compute_sed_with_extrapolation(times, wavelengths, graph_state, min_valid_wave=rb_result.minwave(), max_valid_wave=rb_result.maxwave(), **kwargs)
        model_flam = rb_result.get_flux_density(shifted_times, wavelengths)
        model_fnu = flam_to_fnu(model_flam, wavelengths, wave_unit=uu.AA, flam_unit=self._FLAM_UNIT, fnu_unit=uu.nJy)
        return model_fnu



class SncosmoWrapperModel:
    @ref('sncosmo')
    def param_names(self):
        return self.source.param_names

    @ref('sncosmo')
    def parameter_values(self):
        return self.source.parameters

    @ref('sncosmo')
    def minwave(self, graph_state=None):
        return self.source.minwave()

    @ref('sncosmo')
    def maxwave(self, graph_state=None):
        return self.source.maxwave()

    @ref('sncosmo', uninterp=('get_node_state',), calls=('set',))
    def _update_sncosmo_model_parameters(self, graph_state):
        local_params = graph_state.get_node_state(self.node_string, 0)
        sn_params = {}
        for name in self.source_param_names:
            sn_params[name] = local_params[name]
        self.source.set(**sn_params)

    @ref('sncosmo')
    def get(self, name):
        return self.source.get(name)

    @ref('sncosmo', attrs=('source_param_names',), uninterp=('add_parameter','set_parameter'), calls=('add_parameter','set_parameter','append','set'))
    def set(self, **kwargs):
        for key, value in kwargs.items():
            if hasattr(self, key):
                self.set_parameter(key, value)
            else:
                self.add_parameter(key, value)
            if key not in self.source_param_names:
                self.source_param_names.append(key)
        self.source.set(**kwargs)

class StaticSEDModel:
    @ref('files')
    def __len__(self):
        return len(self.sed_values)

    @ref('files', uninterp=('StaticSEDModel.__init__',))
    def from_synphot(cls, sp_model, waves=None, **kwargs):
        try:
            from synphot import units
        except ImportError as err:
            raise ImportError
        if sp_model.z > 0.0:
            raise ValueError
        if waves is None:
            waves = np.array(sp_model.waveset * u.angstrom)
        photlam_flux = sp_model(waves, flux_unit=units.PHOTLAM)
        sed_data = np.array(units.convert_flux(waves, photlam_flux, 'nJy'))
        return cls(np.vstack((waves, sed_data)), **kwargs)



class StaticBandfluxModel:
    @ref('files')
    def __len__(self):
        return len(self.bandflux_values)



class SFDMap:
    @ref('files')
    def _data_files_exist(self, data_dir):
        if not data_dir.exists() or not data_dir.is_dir():
            return False
        elif (data_dir / 'SFD_dust_4096_ngp.fits').exists() is False:
            return False
        elif (data_dir / 'SFD_dust_4096_sgp.fits').exists() is False:
            return False
        return True

    @ref('files', uninterp=('_data_files_exist',), calls=('mkdir','pooch.retrieve'))
    def _load_data(self, data_dir=None):
        logger = logging.getLogger(__name__)
        if importlib.util.find_spec('sfdmap2') is None:
            raise ImportError
        else:
            from sfdmap2 import sfdmap
        data_dir = Path(data_dir) if data_dir is not None else self._default_map_dir
        if not self._data_files_exist(data_dir):
            data_url = ('https://github.com/kbarbary/sfddata/archive/master.tar.gz',)
            if not data_dir.exists():
                data_dir.mkdir(parents=True)
            pooch.retrieve(url='https://github.com/kbarbary/sfddata/archive/master.tar.gz', known_hash='95e8645dcdcbd4ad48398d44307741f550bdde95e8f438b2a3be0021723a4d7e', processor=pooch.Untar(extract_dir=data_dir))
            data_dir = data_dir / 'sfddata-master'
        if not self._data_files_exist(data_dir):
            raise ValueError
        return sfdmap.SFDMap(data_dir)

class ExtinctionEffect:
    @ref('files', attrs=('extinction_model',), uninterp=('EffectModel.__init__','add_effect_parameter','load_extinction_model'), calls=('__init__','add_effect_parameter'))
    def __init__(self, extinction_model=None, ebv=None, frame: Literal['observer'] | Literal['rest']=None, **kwargs):
        super().__init__(**kwargs)
        self.add_effect_parameter('ebv', ebv)
        if frame == 'observer':
            self.rest_frame = False
        elif frame == 'rest':
            self.rest_frame = True
        else:
            raise ValueError
        if isinstance(extinction_model, str):
            extinction_model = ExtinctionEffect.load_extinction_model(extinction_model, **kwargs)
        self.extinction_model = extinction_model

    @ref('files')
    def list_extinction_models():
        model_names = []
        for submodule in iter_modules(dust_extinction.__path__):
            ext_module = importlib.import_module(f'dust_extinction.{submodule.name}')
            for entry_name in dir(ext_module):
                entry_obj = getattr(ext_module, entry_name)
                if hasattr(entry_obj, 'extinguish'):
                    model_names.append(entry_name)
        return model_names

    @ref('files')
    def load_extinction_model(name, **kwargs):
        for submodule in iter_modules(dust_extinction.__path__):
            ext_module = importlib.import_module(f'dust_extinction.{submodule.name}')
            if ext_module is not None and name in dir(ext_module):
                ext_class = getattr(ext_module, name)
                return ext_class(**kwargs)
        raise KeyError

class BicubicAxis:
    @ref('files')
    def __len__(self):
        return self.num_vals



class SingleVariableNode:
    @ref('files', uninterp=('ParameterizedNode.__init__','add_parameter'), calls=('__init__','add_parameter'))
    def __init__(self, name, value, **kwargs):
        super().__init__(**kwargs)
        self.add_parameter(name, value, **kwargs)



class RedshiftDistFunc:
    @ref('files', uninterp=('FunctionNode.__init__',), calls=('__init__',))
    def __init__(self, redshift, cosmology, **kwargs):
        func = partial(redshift_to_distance, cosmology=cosmology)
        func.__name__ = 'redshift_to_distance'
        func.__doc__ = redshift_to_distance.__doc__
        super().__init__(func=func, redshift=redshift, **kwargs)



@ref('files')
def bulk_convert_matrix(mat, in_units, out_units):
    multipler = (1.0 * in_units).to_value(out_units)
    return multipler * mat


@ref('snia-run', uninterp=('SNIaHost.__init__','NumpyRandomFunc.__init__','SamplePDF.__init__','DistModFromRedshift.__init__','HostmassX1Func.__init__','X0FromDistMod.__init__','SncosmoWrapperModel.__init__'))
def construct_snia_source(oversampled_observations, zpdf):
    t_min = oversampled_observations['observationStartMJD'].min()
    t_max = oversampled_observations['observationStartMJD'].max()
    host = SNIaHost(ra=NumpyRandomFunc('uniform', low=-0.5, high=0.5), dec=NumpyRandomFunc('uniform', low=-0.5, high=0.5), hostmass=NumpyRandomFunc('uniform', low=7, high=12), redshift=SamplePDF(zpdf), node_label='host')
    distmod_func = DistModFromRedshift(host.redshift, H0=73.0, Omega_m=0.3)
    x1_func = HostmassX1Func(host.hostmass)
    c_func = NumpyRandomFunc('normal', loc=0, scale=0.02)
    m_abs_func = NumpyRandomFunc('normal', loc=-19.3, scale=0.1)
    x0_func = X0FromDistMod(distmod=distmod_func, x1=x1_func, c=c_func, alpha=0.14, beta=3.1, m_abs=m_abs_func, node_label='x0_func')
    sncosmo_modelname = 'salt3'
    source = SncosmoWrapperModel(sncosmo_modelname, t0=NumpyRandomFunc('uniform', low=t_min, high=t_max), x0=x0_func, x1=x1_func, c=c_func, ra=NumpyRandomFunc('normal', loc=host.ra, scale=0.01), dec=NumpyRandomFunc('normal', loc=host.dec, scale=0.01), redshift=host.redshift, node_label='source')
    return source


@ref('snia-run', uninterp=('PassbandGroup.__init__',), calls=('sncosmo.register',))
def load_and_register_passband(passbands_dir, to_use):
    passbands_dir = Path(passbands_dir)
    passband_list = []
    for band in to_use:
        file_path = passbands_dir / 'LSST' / f'{band}.dat'
        passband_list.append({'filter_name': band, 'table_path': file_path})
    if len(passband_list) == 0:
        raise ValueError
    passbands = PassbandGroup(passband_list, survey='LSST', units='nm', trim_quantile=0.001, delta_wave=1)
    for f, passband in passbands.passbands.items():
        sncosmo_bandpass = sncosmo.Bandpass(*passband.processed_transmission_table.T, name=f'lightcurvelynx_{f}')
        sncosmo.register(sncosmo_bandpass, force=True)
    return passbands


@ref('snia-run', uninterp=('sample_parameters','evaluate_sed','evaluate_bandfluxes','range_search','bandflux_error_point_source','apply_noise','fnu_to_flam'), calls=('sample_parameters','[]='))
def draw_single_random_sn(source, opsim, passbands, state=None, rng_info=None):
    if state is None:
        state = source.sample_parameters(rng_info=rng_info)
    ra = state['source']['ra']
    dec = state['source']['dec']
    t0 = state['source']['t0']
    z = state['source']['redshift']
    wave_obs = passbands.waves
    wavelengths_rest = wave_obs / (1.0 + z)
    res = {'wavelengths_rest': wavelengths_rest}
    obs_index = np.array(opsim.range_search(ra, dec, radius=1.75))
    phase_obs = opsim['time'][obs_index] - t0
    obs_index = obs_index[(phase_obs > -20 * (1.0 + z)) & (phase_obs < 50 * (1.0 + z))]
    times = opsim['time'][obs_index].to_numpy()
    if len(times) == 0:
        pass
    res['times'] = times
    filters = opsim['filter'][obs_index].to_numpy(str)
    filters = np.char.add('LSST_', filters)
    res['filters'] = filters
    flux_nJy = source.evaluate_sed(times, wave_obs, graph_state=state, rng_info=rng_info)
    res['flux_nJy'] = flux_nJy
    res['flux_flam'] = fnu_to_flam(flux_nJy, wave_obs, wave_unit=u.AA, flam_unit=u.erg / u.second / u.cm ** 2 / u.AA, fnu_unit=u.nJy)
    res['flux_fnu'] = flux_nJy
    bandfluxes_perfect = source.evaluate_bandfluxes(passbands, times, filters, state, rng_info=rng_info)
    res['bandfluxes_perfect'] = bandfluxes_perfect
    bandfluxes_error = opsim.bandflux_error_point_source(bandfluxes_perfect, obs_index)
    res['bandfluxes_error'] = bandfluxes_error
    res['bandfluxes'] = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=rng_info)
    res['state'] = state
    return res


@ref('snia-run', uninterp=('construct_snia_source','load_and_register_passband','draw_single_random_sn','num_snia_per_redshift_bin','sample_parameters','extract_single_sample','flam_to_fnu'), calls=('=<dynamic>','draw_single_random_sn','[]='))
def run_snia_end2end(oversampled_observations, passbands_dir, solid_angle=0.0001, nsample=1, check_sncosmo=False, rng_info=None):
    if rng_info is None:
        rng_info = np.random.default_rng()
    zmin = 0.1
    zmax = 0.4
    H0 = 70.0
    Omega_m = 0.3
    nsn, z = num_snia_per_redshift_bin(zmin, zmax, 100, H0=H0, Omega_m=Omega_m)
    zpdf = interp1d(z, nsn, bounds_error=False, fill_value=0)
    if nsample is None and solid_angle is not None:
        nsn, _ = num_snia_per_redshift_bin(zmin, zmax, znbins=1, solid_angle=solid_angle, H0=H0, Omega_m=Omega_m)
        nsample = int(nsn[0])
    source = construct_snia_source(oversampled_observations, zpdf)
    passbands = load_and_register_passband(passbands_dir, to_use=['g', 'r'])
    sample_states = source.sample_parameters(num_samples=nsample, rng_info=rng_info)
    res_list = []
    for i in range(0, nsample):
        current_state = sample_states.extract_single_sample(i)
        res = draw_single_random_sn(source, opsim=oversampled_observations, passbands=passbands, state=current_state, rng_info=rng_info)
        p = {}
        for parname in ['t0', 'x0', 'x1', 'c', 'redshift', 'ra', 'dec']:
            p[parname] = float(current_state['source'][parname])
        p['hostmass'] = current_state['host.hostmass']
        p['distmod'] = current_state['x0_func.distmod']
        res['parameter_values'] = p
        if check_sncosmo:
            saltpars = {'x0': p['x0'], 'x1': p['x1'], 'c': p['c'], 'z': p['redshift'], 't0': p['t0']}
            model = sncosmo.Model('salt3')
            model.update(saltpars)
            wave = passbands.waves
            time = res['times']
            filters = res['filters']
            flux_sncosmo = model.flux(time, wave)
            fnu_sncosmo = flam_to_fnu(flux_sncosmo, wave, wave_unit=u.AA, flam_unit=u.erg / u.second / u.cm ** 2 / u.AA, fnu_unit=u.nJy)
            np.testing.assert_allclose(res['flux_nJy'], fnu_sncosmo, atol=1e-08, rtol=1e-06)
            np.testing.assert_allclose(res['flux_flam'], flux_sncosmo, atol=1e-30, rtol=1e-05)
            if np.all(flux_sncosmo > 0):
                sncosmo_band_names = np.char.add('lightcurvelynx_', filters)
                bandflux_sncosmo = model.bandflux(sncosmo_band_names, time, zpsys='ab', zp=8.9 + 2.5 * 9)
                np.testing.assert_allclose(res['bandfluxes_perfect'], bandflux_sncosmo, rtol=0.1)
        res_list.append(res)
    return (res_list, passbands)
