from abc import ABC
from os import urandom
import numpy as np
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.astro_utils.redshift import RedshiftDistFunc, obs_to_rest_times_waves, rest_to_obs_flux
from lightcurvelynx.base_models import ParameterizedNode
from lightcurvelynx.graph_state import GraphState
from lightcurvelynx.math_nodes.given_sampler import GivenValueSampler
from lightcurvelynx.models.physical_model import BandfluxModel, BasePhysicalModel, SEDModel
import logging
import matplotlib.pyplot as plt
from lightcurvelynx.astro_utils.mag_flux import mag2flux
from lightcurvelynx.consts import lsst_filter_plot_colors
from lightcurvelynx.math_nodes.given_sampler import GivenValueSampler, GivenValueSelector
from lightcurvelynx.models.physical_model import BandfluxModel
from lightcurvelynx.utils.io_utils import read_lclib_data


class BasePhysicalModel:
    @ref('construction', uninterp=('ParameterizedNode.__init__','RedshiftDistFunc.__init__','add_parameter'), calls=('add_parameter','__init__'), attrs=('_rng','_redshift_func'))
    def __init__(self, *, ra=None, dec=None, redshift=None, t0=None, distance=None, node_label=None, seed=None, **kwargs):
        super().__init__(node_label=node_label, **kwargs)
        self.add_parameter('ra', ra, allow_gradient=False)
        self.add_parameter('dec', dec, allow_gradient=False)
        self.add_parameter('redshift', redshift, allow_gradient=False)
        self.add_parameter('t0', t0)
        if distance is not None:
            self.add_parameter('distance', distance, allow_gradient=False)
        elif redshift is not None and kwargs.get('cosmology') is not None:
            self._redshift_func = RedshiftDistFunc(redshift=self.redshift, **kwargs)
            self.add_parameter('distance', self._redshift_func, allow_gradient=False)
        else:
            self.add_parameter('distance', None, allow_gradient=False)
        if seed is None:
            seed = int.from_bytes(urandom(4), 'big')
        self._rng = np.random.default_rng(seed=seed)

    @ref('samples')
    def minwave(self, graph_state=None):
        return None

    @ref('samples')
    def maxwave(self, graph_state=None):
        return None

    @ref('samples')
    def mask_by_time(self, times, graph_state=None):
        return np.full(len(times), True)

    @ref('samples', uninterp=('sample_parameters','_evaluate_bandfluxes_single','PassbandGroup.__init__'), calls=('sample_parameters','_evaluate_bandfluxes_single'))
    def evaluate_bandfluxes(self, passband_or_group, times, filters, state, rng_info=None):
        if state is None:
            state = self.sample_parameters(num_samples=1, rng_info=rng_info)
        if isinstance(passband_or_group, Passband):
            passband_group = PassbandGroup([passband_or_group])
            if filters is None:
                filters = np.full(len(times), passband_or_group.filter_name)
        else:
            passband_group = passband_or_group
        if filters is None:
            raise ValueError
        filters = np.asarray(filters)
        if len(filters) != len(times):
            raise ValueError
        if state.num_samples == 1:
            return self._evaluate_bandfluxes_single(passband_group, times, filters, state, rng_info=rng_info)
        bandfluxes = np.empty((state.num_samples, len(times)))
        for sample_num, current_state in enumerate(state):
            current_fluxes = self._evaluate_bandfluxes_single(passband_group, times, filters, current_state, rng_info=rng_info)
            bandfluxes[sample_num, :] = current_fluxes[np.newaxis, :]
        return bandfluxes



class SEDModel:
    @ref('construction', attrs=('apply_redshift','rest_frame_effects','obs_frame_effects','wave_extrapolation'), uninterp=('BasePhysicalModel.__init__',), calls=('__init__',))
    def __init__(self, wave_extrapolation=None, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.apply_redshift = kwargs.get('redshift') is not None
        self.rest_frame_effects = []
        self.obs_frame_effects = []
        self.wave_extrapolation = wave_extrapolation

    @ref('construction', attrs=('apply_redshift',))
    def set_apply_redshift(self, apply_redshift):
        self.apply_redshift = apply_redshift

    @ref('samples', uninterp=('compute_sed_with_extrapolation','get_local_params','get_param'), calls=('compute_sed_with_extrapolation',))
    def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
        if state is None or state.num_samples != 1:
            raise ValueError
        params = self.get_local_params(state)
        if self.apply_redshift and params['redshift'] != 0.0:
            if params.get('redshift', None) is None:
                raise ValueError
            if params.get('t0', None) is None:
                raise ValueError
            rest_times, rest_wavelengths = obs_to_rest_times_waves(times, wavelengths, params['redshift'], params['t0'])
        else:
            rest_times = times
            rest_wavelengths = wavelengths
        flux_density = self.compute_sed_with_extrapolation(rest_times, rest_wavelengths, state, rng_info=rng_info, **kwargs)
        for effect in self.rest_frame_effects:
            flux_density = effect.apply(flux_density, times=rest_times, wavelengths=rest_wavelengths, rng_info=rng_info, **params)
        if self.apply_redshift and params['redshift'] != 0.0:
            flux_density = rest_to_obs_flux(flux_density, params['redshift'])
        for effect in self.obs_frame_effects:
            flux_density = effect.apply(flux_density, times=times, wavelengths=wavelengths, rng_info=rng_info, **params)
        return flux_density

    @ref('samples', uninterp=('sample_parameters','_evaluate_single'), calls=('sample_parameters','_evaluate_single'))
    def evaluate_sed(self, times, wavelengths, graph_state=None, given_args=None, rng_info=None, **kwargs):
        times = np.asarray(times)
        wavelengths = np.asarray(wavelengths)
        if graph_state is None:
            graph_state = self.sample_parameters(given_args=given_args, num_samples=1, rng_info=rng_info)
        if graph_state.num_samples == 1:
            return self._evaluate_single(times, wavelengths, graph_state, rng_info=rng_info, **kwargs)
        results = np.empty((graph_state.num_samples, len(times), len(wavelengths)))
        for sample_num, state in enumerate(graph_state):
            results[sample_num, :, :] = self._evaluate_single(times, wavelengths, state, rng_info=rng_info, **kwargs)
        return results

    @ref('bands', uninterp=('evaluate_sed','Passband.fluxes_to_bandflux'), calls=('evaluate_sed','fluxes_to_bandflux'))
    def _evaluate_bandfluxes_single(self, passband_group, times, filters, state, rng_info=None):
        bandfluxes = np.empty(len(times))
        for filter_name in np.unique(filters):
            passband = passband_group[filter_name]
            filter_mask = filters == filter_name
            spectral_fluxes = self.evaluate_sed(times[filter_mask], passband.waves, state, rng_info=rng_info)
            bandfluxes[filter_mask] = passband.fluxes_to_bandflux(spectral_fluxes)
        return bandfluxes



class BandfluxModel:
    @ref('construction', attrs=('band_pass_effects',), uninterp=('BasePhysicalModel.__init__',), calls=('__init__',))
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.band_pass_effects = []

    @ref('bands', uninterp=('compute_bandflux','get_local_params','get_param'), calls=('compute_bandflux','apply_bandflux'))
    def _evaluate_bandfluxes_single(self, passband_group, times, filters, state, rng_info=None):
        params = self.get_local_params(state)
        bandfluxes = self.compute_bandflux(times, filters, state, rng_info=rng_info)
        for effect in self.band_pass_effects:
            bandfluxes = effect.apply_bandflux(bandfluxes, times=times, filters=filters, rng_info=rng_info, **params)
        return bandfluxes





class MultiObjectModel:
    @ref('composite', attrs=('objects','num_objects','_is_bandflux','_any_bandflux'), uninterp=('SEDModel.__init__',), calls=('__init__',))
    def __init__(self, objects, **kwargs):
        super().__init__(**kwargs)
        self._is_bandflux = [False] * len(objects)
        self._any_bandflux = False
        for idx, object in enumerate(objects):
            if isinstance(object, BandfluxModel):
                self._is_bandflux[idx] = True
                self._any_bandflux = True
            elif not isinstance(object, BasePhysicalModel):
                raise ValueError
        self.objects = objects
        self.num_objects = len(objects)

    @ref('composite', uninterp=('ParameterizedNode.set_graph_positions',), calls=('set_graph_positions',))
    def set_graph_positions(self, seen_nodes=None):
        if seen_nodes is None:
            seen_nodes = set()
        super().set_graph_positions(seen_nodes=seen_nodes)
        for object in self.objects:
            object.set_graph_positions(seen_nodes=seen_nodes)

    @ref('composite', calls=('set_apply_redshift',))
    def set_apply_redshift(self, apply_redshift):
        if self._any_bandflux:
            raise NotImplementedError
        for object in self.objects:
            object.set_apply_redshift(apply_redshift)

    @ref('composite', uninterp=('set_graph_positions','GraphState.__init__','GraphState.update','_sample_helper'), calls=('set_graph_positions','update','_sample_helper'))
    def sample_parameters(self, given_args=None, num_samples=1, rng_info=None):
        if self.node_pos is None:
            self.set_graph_positions()
        graph_state = GraphState(num_samples)
        if given_args is not None:
            graph_state.update(given_args, all_fixed=True)
        seen_nodes = {}
        for object in self.objects:
            object._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
        self._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
        return graph_state

class AdditiveMultiObjectModel:
    @ref('composite', attrs=('weights',), uninterp=('MultiObjectModel.__init__',), calls=('__init__',))
    def __init__(self, objects, weights=None, **kwargs):
        super().__init__(objects, **kwargs)
        if weights is None:
            self.weights = np.full(len(objects), 1.0)
        elif len(weights) != len(objects):
            raise ValueError
        else:
            self.weights = weights

    @ref('composite')
    def minwave(self, graph_state=None):
        return [object.minwave(graph_state=graph_state) for object in self.objects]

    @ref('composite')
    def maxwave(self, graph_state=None):
        return [object.maxwave(graph_state=graph_state) for object in self.objects]

    @ref('composite', uninterp=('get_local_params','get_param',))
    def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
        if self._any_bandflux:
            raise TypeError
        flux_density = np.zeros((len(times), len(wavelengths)))
        for object, weight in zip(self.objects, self.weights, strict=False):
            flux_density += weight * object._evaluate_single(times, wavelengths, state, rng_info=rng_info, **kwargs)
        params = self.get_local_params(state)
        for effect in self.obs_frame_effects:
            flux_density = effect.apply(flux_density, times=times, wavelengths=wavelengths, rng_info=rng_info, **params)
        return flux_density

    @ref('composite', uninterp=('get_local_params','get_param',))
    def _evaluate_bandfluxes_single(self, passband_group, times, filters, state, rng_info=None):
        bandfluxes = np.zeros(len(times))
        for idx, object in enumerate(self.objects):
            object_fluxes = object._evaluate_bandfluxes_single(passband_group, times, filters, state, rng_info=rng_info)
            bandfluxes += self.weights[idx] * object_fluxes
        params = self.get_local_params(state)
        for effect in self.obs_frame_effects:
            bandfluxes = effect.apply_bandflux(bandfluxes, times=times, filters=filters, rng_info=rng_info, **params)
        return bandfluxes



class RandomMultiObjectModel:
    @ref('composite', attrs=('object_map',), uninterp=('MultiObjectModel.__init__','GivenValueSampler.__init__','add_parameter'), calls=('__init__','add_parameter'))
    def __init__(self, objects, weights=None, object_names=None, **kwargs):
        super().__init__(objects, **kwargs)
        if not object_names:
            object_names = [src.node_string for src in objects]
            if len(set(object_names)) != len(objects):
                object_names = [f'{src.node_string}_{idx}' for idx, src in enumerate(objects)]
        if len(object_names) != len(objects) or len(set(object_names)) != len(objects):
            raise ValueError
        self.object_map = {name: src for name, src in zip(object_names, objects, strict=True)}
        self._sampler_node = GivenValueSampler(object_names, weights=weights, seed=kwargs.get("seed"))
        self.add_parameter('selected_object', value=self._sampler_node, allow_gradient=False)

    @ref('composite', uninterp=('get_local_params','get_param',))
    def minwave(self, graph_state=None):
        selected = self.get_param(graph_state, 'selected_object')
        model = self.object_map[selected] if selected in self.object_map else self.objects[selected]
        return model.minwave(graph_state=graph_state)

    @ref('composite', uninterp=('get_local_params','get_param',))
    def maxwave(self, graph_state=None):
        selected = self.get_param(graph_state, 'selected_object')
        model = self.object_map[selected] if selected in self.object_map else self.objects[selected]
        return model.maxwave(graph_state=graph_state)

    @ref('composite', uninterp=('get_local_params','get_param',))
    def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
        if self._any_bandflux:
            raise TypeError
        model_name = self.get_param(state, 'selected_object')
        flux_density = self.object_map[model_name]._evaluate_single(times, wavelengths, state, rng_info=rng_info, **kwargs)
        params = self.get_local_params(state)
        for effect in self.obs_frame_effects:
            flux_density = effect.apply(flux_density, times=times, wavelengths=wavelengths, rng_info=rng_info, **params)
        return flux_density

    @ref('composite', uninterp=('get_local_params','get_param',))
    def _evaluate_bandfluxes_single(self, passband_group, times, filters, state, rng_info=None):
        model_name = self.get_param(state, 'selected_object')
        bandfluxes = self.object_map[model_name]._evaluate_bandfluxes_single(passband_group, times, filters, state, rng_info=rng_info)
        params = self.get_local_params(state)
        for effect in self.obs_frame_effects:
            bandfluxes = effect.apply_bandflux(bandfluxes, times=times, filters=filters, rng_info=rng_info, **params)
        return bandfluxes





class LightcurveData:
    @ref('templates', attrs=('lightcurves','lc_data_t0','period','min_times','max_times','baseline'), uninterp=('_validate_periodicity',), calls=('_validate_periodicity','[]='))
    def __init__(self, lightcurves, lc_data_t0, *, periodic=False, magnitudes_in=False, baseline=None):
        self.lc_data_t0 = lc_data_t0
        self.period = None
        if isinstance(lightcurves, dict):
            self.lightcurves = {filter: lc.astype(float) for filter, lc in lightcurves.items()}
        elif isinstance(lightcurves, np.ndarray):
            if lightcurves.shape[1] != 3:
                raise ValueError
            self.lightcurves = {}
            filters = np.unique(lightcurves[:, 2])
            for filter in filters:
                filter_mask = lightcurves[:, 2] == filter
                filter_times = lightcurves[filter_mask, 0].astype(float)
                filter_bandflux = lightcurves[filter_mask, 1].astype(float)
                self.lightcurves[str(filter)] = np.column_stack((filter_times, filter_bandflux))
        else:
            raise TypeError
        for filter, lc in self.lightcurves.items():
            if len(lc.shape) != 2 or (lc.shape[1] != 2 and lc.shape[1] != 3):
                raise ValueError
            if lc.shape[1] == 3:
                lc = lc[:, :2]
            if not np.all(np.diff(lc[:, 0]) > 0):
                raise ValueError
            lc[:, 0] -= self.lc_data_t0
            if magnitudes_in:
                lc[:, 1] = mag2flux(lc[:, 1])
        if periodic:
            self._validate_periodicity()
        self.min_times = {filter: lc[0, 0] for filter, lc in self.lightcurves.items()}
        self.max_times = {filter: lc[-1, 0] for filter, lc in self.lightcurves.items()}
        if baseline is None:
            self.baseline = {filter: 0.0 for filter in self.lightcurves}
        else:
            for filter in self.lightcurves:
                if filter not in baseline:
                    raise ValueError
            if magnitudes_in:
                self.baseline = {filter: mag2flux(value) for filter, value in baseline.items()}
            else:
                self.baseline = dict(baseline)

    @ref('templates')
    def __len__(self):
        return len(self.lightcurves)

    @ref('templates')
    def filters(self):
        return list(self.lightcurves.keys())

    @ref('templates', attrs=('period','lc_data_t0'), calls=('[]=',))
    def _validate_periodicity(self):
        all_lcs = list(self.lightcurves.values())
        if len(all_lcs) == 0:
            raise ValueError
        if len(all_lcs[0]) < 2:
            raise ValueError
        num_curves = len(all_lcs)
        for i in range(num_curves):
            if not np.allclose(all_lcs[i][:, 0], all_lcs[0][:, 0]):
                raise ValueError
            if not np.allclose(all_lcs[i][0, 1], all_lcs[i][-1, 1]):
                raise ValueError
        self.period = all_lcs[0][-1, 0] - all_lcs[0][0, 0]
        if self.period <= 0.0:
            raise ValueError
        if not np.isclose(all_lcs[0][0, 0], 0.0):
            if self.lc_data_t0 != 0.0:
                raise ValueError
            self.lc_data_t0 = all_lcs[0][0, 0]
            for lc in self.lightcurves.values():
                lc[:, 0] -= self.lc_data_t0

    @ref('templates', uninterp=('LightcurveData.__init__',), calls=('__init__',))
    def from_lclib_table(cls, lightcurves_table, *, forced_lc_t0=None, filters=None):
        if 'time' not in lightcurves_table.colnames:
            raise ValueError
        filter_cols = [col for col in lightcurves_table.colnames if col != 'time' and col != 'type']
        if filters is None:
            filters = filter_cols
        else:
            filters = [col for col in filter_cols if col in filters]
        if len(filters) == 0:
            raise ValueError
        baseline = {filter: 0.0 for filter in filters}
        if 'type' in lightcurves_table.colnames:
            obs_mask = lightcurves_table['type'] == 'S'
            if np.any(~obs_mask):
                tmp_table = lightcurves_table[~obs_mask]
                if len(tmp_table) > 1:
                    pass
                baseline = {filter: mag2flux(tmp_table[filter][0]) for filter in filters}
            lightcurves_table = lightcurves_table[obs_mask]
        lc_data_t0 = np.min(lightcurves_table['time']) if forced_lc_t0 is None else forced_lc_t0
        lightcurves = {}
        for filter in filters:
            filter_times = lightcurves_table['time'].astype(float)
            filter_bandflux = mag2flux(lightcurves_table[filter].astype(float))
            lightcurves[str(filter)] = np.column_stack((filter_times, filter_bandflux))
        recur_class = lightcurves_table.meta.get('RECUR_CLASS', '')
        if recur_class == 'PERIODIC' or recur_class == 'RECUR-PERIODIC':
            periodic = True
            baseline = None
        elif recur_class == 'RECUR-NONPERIODIC':
            periodic = False
        elif recur_class == 'NON-RECUR':
            periodic = False
        elif recur_class == '':
            periodic = False
        else:
            raise ValueError
        if periodic:
            all_match = True
            for lc in lightcurves.values():
                all_match &= np.isclose(lc[0, 1], lc[-1, 1])
            if not all_match:
                dt = lightcurves_table['time'][-1] - lightcurves_table['time'][0]
                ave_dt = dt / (len(lightcurves_table) - 1)
                new_end = lightcurves_table['time'][-1] + ave_dt
                for filter, lc in lightcurves.items():
                    lc = np.vstack((lc, [new_end, lc[0, 1]]))
                    lightcurves[filter] = lc
        return cls(lightcurves, lc_data_t0, periodic=periodic, baseline=baseline)

    @ref('templates')
    def evaluate_sed(self, times, filter):
        if filter not in self.lightcurves:
            raise ValueError
        lightcurve = self.lightcurves[filter]
        if self.period is not None:
            times = times % self.period
        values = np.full(len(times), self.baseline.get(filter, 0.0))
        overlap = (times >= self.min_times[filter]) & (times <= self.max_times[filter])
        values[overlap] = np.interp(times[overlap], lightcurve[:, 0], lightcurve[:, 1], left=0.0, right=0.0)
        return values

class BaseLightcurveTemplateModel:
    @ref('templates', attrs=('filters','all_waves','sed_values'), uninterp=('BandfluxModel.__init__','PassbandGroup.__init__','_create_sed_basis'), calls=('__init__','_create_sed_basis'))
    def __init__(self, passbands, *, filters=None, **kwargs):
        super().__init__(**kwargs)
        if isinstance(passbands, Passband):
            passbands = PassbandGroup(given_passbands=[passbands])
        if filters is None:
            filters = passbands.filters
        else:
            for filter in filters:
                if filter not in passbands:
                    raise ValueError
        self.filters = filters
        self.all_waves = passbands.waves
        self.sed_values = self._create_sed_basis(self.filters, passbands)
        if 't0' not in kwargs or kwargs['t0'] is None:
            raise ValueError

    @ref('templates', uninterp=('PassbandGroup.fluxes_to_bandflux',))
    def _create_sed_basis(self, filters, passbands):
        waves_per_filter = np.zeros((len(filters), len(passbands.waves)))
        for idx, filter in enumerate(filters):
            is_significant = passbands[filter].processed_transmission_table[:, 1] > 1e-05
            significant_waves = passbands[filter].waves[is_significant]
            indices = np.searchsorted(passbands.waves, significant_waves)
            waves_per_filter[idx, indices] = 1.0
        filter_counts = np.sum(waves_per_filter, axis=0)
        sed_basis_values = {}
        for idx, filter in enumerate(filters):
            valid_waves = (waves_per_filter[idx, :] == 1) & (filter_counts == 1)
            if np.sum(valid_waves) == 0:
                raise ValueError
            filter_sed_basis = np.zeros((1, len(passbands.waves)))
            filter_sed_basis[0, valid_waves] = 1.0
            total_flux = passbands.fluxes_to_bandflux(filter_sed_basis, filter)
            if total_flux[0] <= 0:
                raise ValueError
            sed_basis_values[filter] = filter_sed_basis[0, :] / total_flux[0]
        return sed_basis_values

    @ref('templates', uninterp=('LightcurveData.evaluate_sed','get_local_params','get_param'))
    def compute_sed_given_lc(self, lc, times, wavelengths, graph_state):
        params = self.get_local_params(graph_state)
        shifted_times = times - params['t0']
        flux_density = np.zeros((len(times), len(wavelengths)))
        for filter in lc.filters:
            sed_waves = np.interp(wavelengths, self.all_waves, self.sed_values[filter], left=0.0, right=0.0)
            sed_time_mult = lc.evaluate_sed(shifted_times, filter)
            sed_flux = np.outer(sed_time_mult, sed_waves)
            flux_density += sed_flux
        return flux_density

class LightcurveTemplateModel:
    @ref('templates', attrs=('lightcurves',), uninterp=('LightcurveData.__init__','BaseLightcurveTemplateModel.__init__'), calls=('__init__',))
    def __init__(self, lightcurves, passbands, lc_data_t0, *, periodic=False, baseline=None, **kwargs):
        if isinstance(lightcurves, LightcurveData):
            self.lightcurves = lightcurves
        else:
            self.lightcurves = LightcurveData(lightcurves, lc_data_t0, periodic=periodic, baseline=baseline)
        super().__init__(passbands, filters=self.lightcurves.filters, **kwargs)

    @ref('templates', uninterp=('compute_sed_given_lc','get_local_params','get_param'))
    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
        return self.compute_sed_given_lc(self.lightcurves, times, wavelengths, graph_state)

    @ref('templates', uninterp=('LightcurveData.evaluate_sed','get_local_params','get_param'))
    def compute_bandflux(self, times, filters, state, **kwargs):
        params = self.get_local_params(state)
        for flt in np.unique(filters):
            if flt not in self.lightcurves.lightcurves:
                raise ValueError
        shifted_times = times - params['t0']
        bandfluxes = np.zeros(len(times))
        for filter in self.lightcurves.filters:
            filter_mask = filters == filter
            bandfluxes[filter_mask] = self.lightcurves.evaluate_sed(shifted_times[filter_mask], filter)
        return bandfluxes

class MultiLightcurveTemplateModel:
    @ref('templates', attrs=('lightcurves','all_filters'), uninterp=('BaseLightcurveTemplateModel.__init__','GivenValueSampler.__init__','GivenValueSelector.__init__','add_parameter'), calls=('__init__','add_parameter'))
    def __init__(self, lightcurves, passbands, *, weights=None, **kwargs):
        self.all_filters = set()
        for lc in lightcurves:
            if not isinstance(lc, LightcurveData):
                raise TypeError
            self.all_filters.update(lc.filters)
        self.lightcurves = lightcurves
        super().__init__(passbands, filters=sorted(self.all_filters), **kwargs)
        all_inds = [i for i in range(len(lightcurves))]
        self._sampler_node = GivenValueSampler(all_inds, weights=weights, seed=kwargs.get("seed"))
        self.add_parameter('selected_lightcurve', value=self._sampler_node, allow_gradient=False)
        for fltr in self.filters:
            baselines = [lc.baseline.get(fltr, 0.0) for lc in lightcurves]
            baseline_selector = GivenValueSelector(baselines, self.selected_lightcurve)
            self.add_parameter(f'baseline_{fltr}', value=baseline_selector, allow_gradient=False)

    @ref('templates')
    def __len__(self):
        return len(self.lightcurves)

    @ref('templates', uninterp=('MultiLightcurveTemplateModel.__init__','LightcurveData.from_lclib_table','read_lclib_data'), calls=('__init__','from_lclib_table'))
    def from_lclib_file(cls, lightcurves_file, passbands, *, forced_lc_t0=None, filters=None, **kwargs):
        lightcurve_tables = read_lclib_data(lightcurves_file)
        if lightcurve_tables is None or len(lightcurve_tables) == 0:
            raise ValueError
        if forced_lc_t0 is None:
            forced_lc_t0 = np.full(len(lightcurve_tables), None)
        elif np.isscalar(forced_lc_t0):
            forced_lc_t0 = np.full(len(lightcurve_tables), forced_lc_t0)
        elif len(forced_lc_t0) != len(lightcurve_tables):
            raise ValueError
        lightcurves = []
        for table, lc_t0 in zip(lightcurve_tables, forced_lc_t0, strict=False):
            lc_data = LightcurveData.from_lclib_table(table, forced_lc_t0=lc_t0, filters=filters)
            lightcurves.append(lc_data)
        return cls(lightcurves, passbands, **kwargs)

    @ref('templates', uninterp=('compute_sed_given_lc','get_local_params','get_param'))
    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
        model_ind = self.get_param(graph_state, 'selected_lightcurve')
        return self.compute_sed_given_lc(self.lightcurves[model_ind], times, wavelengths, graph_state)

    @ref('templates', uninterp=('LightcurveData.evaluate_sed','get_local_params','get_param'))
    def compute_bandflux(self, times, filters, state, **kwargs):
        params = self.get_local_params(state)
        model_ind = params['selected_lightcurve']
        lc = self.lightcurves[model_ind]
        for flt in np.unique(filters):
            if flt not in lc.lightcurves:
                raise ValueError
        shifted_times = times - params['t0']
        bandfluxes = np.zeros(len(times))
        for filter in lc.filters:
            filter_mask = filters == filter
            bandfluxes[filter_mask] = lc.evaluate_sed(shifted_times[filter_mask], filter)
        return bandfluxes



