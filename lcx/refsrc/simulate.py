import citation_compass as cc
import numpy as np
import pandas as pd
from nested_pandas import NestedFrame
from lightcurvelynx.astro_utils.noise_model import apply_noise
from lightcurvelynx.models.physical_model import BandfluxModel


@ref('window')
def get_time_windows(t0, time_window_offset):
    if t0 is None or time_window_offset is None:
        return (None, None)
    if len(time_window_offset) != 2:
        raise ValueError
    before, after = time_window_offset
    if np.isscalar(t0):
        t0 = np.array([t0])
    if np.size(t0) > 0 and all((value is None for value in np.ravel(t0))):
        return (None, None)
    start_times = t0 - before if before is not None else None
    end_times = t0 + after if after is not None else None
    return (start_times, end_times)


@ref('pipeline', uninterp=('apply_noise', 'get_time_windows'), calls=('sample_parameters', 'get_time_windows', 'range_search', 'mask_by_time', 'evaluate_bandfluxes', 'bandflux_error_point_source', 'apply_noise', 'print_used_citations', 'DataFrame', 'NestedFrame', 'add_nested'))
def simulate_lightcurves(model, num_samples, obstable, passbands, *, obstable_save_cols=None, param_cols=None, apply_obs_mask=False, time_window_offset=None, rng=None, generate_citations=False):
    if num_samples <= 0:
        raise ValueError
    sample_states = model.sample_parameters(num_samples=num_samples, rng_info=rng)
    if not isinstance(obstable, list):
        obstable = [obstable]
    if not isinstance(passbands, list):
        passbands = [passbands]
    num_surveys = len(obstable)
    if num_surveys != len(passbands):
        raise ValueError
    if num_surveys > 1 and isinstance(model, BandfluxModel):
        raise ValueError
    ra = np.atleast_1d(model.get_param(sample_states, 'ra'))
    dec = np.atleast_1d(model.get_param(sample_states, 'dec'))
    results_dict = {'id': [i for i in range(num_samples)], 'ra': ra.tolist(), 'dec': dec.tolist(), 'nobs': [0] * num_samples, 't0': np.atleast_1d(model.get_param(sample_states, 't0')).tolist(), 'z': np.atleast_1d(model.get_param(sample_states, 'redshift')).tolist(), 'params': [state.to_dict() for state in sample_states]}
    if param_cols is not None:
        for col in param_cols:
            if col not in sample_states:
                raise KeyError
            results_dict[col.replace('.', '_')] = np.atleast_1d(sample_states[col]).tolist()
    nested_index = []
    nested_dict = {'mjd': [], 'filter': [], 'flux': [], 'fluxerr': [], 'flux_perfect': [], 'survey_idx': []}
    if obstable_save_cols is None:
        obstable_save_cols = []
    for col in obstable_save_cols:
        nested_dict[col] = []
    start_times, end_times = get_time_windows(model.get_param(sample_states, 't0'), time_window_offset)
    all_obs_matches = [obstable[i].range_search(ra, dec, t_min=start_times, t_max=end_times) for i in range(num_surveys)]
    all_times = [np.asarray(obstable[i]['time'].values, dtype=float) for i in range(num_surveys)]
    all_filters = [np.asarray(obstable[i]['filter'].values, dtype=str) for i in range(num_surveys)]
    for idx, state in enumerate(sample_states):
        total_num_obs = 0
        for survey_idx in range(num_surveys):
            obs_index = np.asarray(all_obs_matches[survey_idx][idx])
            if len(obs_index) == 0:
                obs_times = []
                obs_filters = []
            else:
                obs_times = all_times[survey_idx][obs_index]
                if apply_obs_mask:
                    obs_mask = model.mask_by_time(obs_times, state)
                    obs_index = obs_index[obs_mask]
                    obs_times = obs_times[obs_mask]
                obs_filters = all_filters[survey_idx][obs_index]
            bandfluxes_perfect = model.evaluate_bandfluxes(passbands[survey_idx], obs_times, obs_filters, state, rng_info=rng)
            bandfluxes_error = obstable[survey_idx].bandflux_error_point_source(bandfluxes_perfect, obs_index)
            bandfluxes = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=rng)
            nobs = len(obs_times)
            nested_dict['mjd'].extend(list(obs_times))
            nested_dict['filter'].extend(list(obs_filters))
            nested_dict['flux_perfect'].extend(list(bandfluxes_perfect))
            nested_dict['flux'].extend(list(bandfluxes))
            nested_dict['fluxerr'].extend(list(bandfluxes_error))
            nested_dict['survey_idx'].extend([survey_idx] * nobs)
            for col in obstable_save_cols:
                col_data = list(obstable[survey_idx][col].values[obs_index]) if col in obstable[survey_idx] else [None] * nobs
                nested_dict[col].extend(col_data)
            total_num_obs += nobs
            nested_index.extend([idx] * nobs)
        results_dict['nobs'][idx] = total_num_obs
    results = NestedFrame(data=results_dict, index=[i for i in range(num_samples)])
    nested_frame = pd.DataFrame(data=nested_dict, index=nested_index)
    results = results.add_nested(nested_frame, 'lightcurve')
    if generate_citations:
        cc.print_used_citations()
    return results


@ref('noise free', calls=('evaluate_bandfluxes',))
def compute_single_noise_free_lightcurve(model, graph_state, passbands, *, rest_frame_phase_min=-50.0, rest_frame_phase_max=50.0, rest_frame_phase_step=2.0):
    if graph_state.num_samples != 1:
        raise ValueError
    rest_phase = np.arange(rest_frame_phase_min, rest_frame_phase_max, step=rest_frame_phase_step)
    times = rest_phase.copy()
    redshift = model.get_param(graph_state, 'redshift')
    if redshift is not None and redshift > 0:
        times = times * (1 + redshift)
    t0 = model.get_param(graph_state, 't0')
    if t0 is not None:
        times += t0
    lightcurves = {'times': times, 'rest_phase': rest_phase}
    for filter in passbands.filters:
        filters_array = np.full(len(times), filter)
        bandfluxes = model.evaluate_bandfluxes(passbands, times, filters_array, graph_state)
        lightcurves[filter] = bandfluxes
    return lightcurves


@ref('noise free', uninterp=('compute_single_noise_free_lightcurve',), calls=('compute_single_noise_free_lightcurve', 'extend', 'DataFrame', 'NestedFrame', 'add_nested'))
def compute_noise_free_lightcurves(model, graph_state, passbands, *, rest_frame_phase_min=-50.0, rest_frame_phase_max=50.0, rest_frame_phase_step=2.0):
    num_samples = graph_state.num_samples
    if np.isscalar(rest_frame_phase_min):
        rest_frame_phase_min = np.full(num_samples, rest_frame_phase_min)
    if np.isscalar(rest_frame_phase_max):
        rest_frame_phase_max = np.full(num_samples, rest_frame_phase_max)
    if np.isscalar(rest_frame_phase_step):
        rest_frame_phase_step = np.full(num_samples, rest_frame_phase_step)
    results_dict = {'id': np.arange(num_samples).tolist(), 'ra': np.atleast_1d(model.get_param(graph_state, 'ra')).tolist(), 'dec': np.atleast_1d(model.get_param(graph_state, 'dec')).tolist(), 'z': np.atleast_1d(model.get_param(graph_state, 'redshift')).tolist()}
    all_filters = passbands.filters
    nested_index = []
    nested_dict = {'times': [], 'rest_phase': []}
    for filter in all_filters:
        nested_dict[filter] = []
    for idx, state_i in enumerate(graph_state):
        lc = compute_single_noise_free_lightcurve(model, state_i, passbands, rest_frame_phase_min=rest_frame_phase_min[idx], rest_frame_phase_max=rest_frame_phase_max[idx], rest_frame_phase_step=rest_frame_phase_step[idx])
        for key in nested_dict:
            nested_dict[key].extend(list(lc[key]))
        nested_index.extend([idx] * len(lc['times']))
    results = NestedFrame(data=results_dict, index=[i for i in range(num_samples)])
    nested_frame = pd.DataFrame(data=nested_dict, index=nested_index)
    results = results.add_nested(nested_frame, 'lightcurve')
    return results
