import numpy as np
from lightcurvelynx.astro_utils.redshift import obs_to_rest_times_waves, rest_to_obs_flux


class WaveExtrapolationModel:
    @ref('extrapolation')
    def __init__(self):
        pass

    @ref('extrapolation')
    def __call__(self, last_wave, last_flux, query_waves):
        last_flux = np.asarray(last_flux)
        num_times = last_flux.shape[0]
        query_waves = np.asarray(query_waves)
        num_waves = query_waves.shape[0]
        return np.zeros((num_times, num_waves))



class ConstantExtrapolation:
    @ref('extrapolation', attrs=('value',))
    def __init__(self, value=0.0):
        super().__init__()
        if value < 0:
            raise ValueError
        self.value = value

    @ref('extrapolation')
    def __call__(self, last_wave, last_flux, query_waves):
        last_flux = np.asarray(last_flux)
        num_times = last_flux.shape[0]
        query_waves = np.asarray(query_waves)
        num_waves = query_waves.shape[0]
        return np.full((num_times, num_waves), self.value)



class LastValueExtrapolation:
    @ref('extrapolation')
    def __init__(self):
        super().__init__()

    @ref('extrapolation')
    def __call__(self, last_wave, last_flux, query_waves):
        last_flux = np.asarray(last_flux)
        query_waves = np.asarray(query_waves)
        num_waves = query_waves.shape[0]
        return np.tile(last_flux[:, np.newaxis], (1, num_waves))



class LinearDecay:
    @ref('extrapolation', attrs=('decay_width',))
    def __init__(self, decay_width=100.0):
        super().__init__()
        if decay_width <= 0:
            raise ValueError
        self.decay_width = decay_width

    @ref('extrapolation')
    def __call__(self, last_wave, last_flux, query_waves):
        last_flux = np.asarray(last_flux)
        query_waves = np.asarray(query_waves)
        dist = np.abs(query_waves - last_wave)
        multiplier = np.clip(1.0 - dist / self.decay_width, 0.0, 1.0)
        flux = last_flux[:, np.newaxis] * multiplier[np.newaxis, :]
        return flux



class ExponentialDecay:
    @ref('extrapolation', attrs=('rate',))
    def __init__(self, rate):
        super().__init__()
        if rate < 0:
            raise ValueError
        self.rate = rate

    @ref('extrapolation')
    def __call__(self, last_wave, last_flux, query_waves):
        last_flux = np.asarray(last_flux)
        query_waves = np.asarray(query_waves)
        dist = np.abs(query_waves - last_wave)
        multiplier = np.exp(-self.rate * dist)
        flux = last_flux[:, np.newaxis] * multiplier[np.newaxis, :]
        return flux


class SEDModel:
    @ref('bounds', uninterp=('minwave','maxwave','compute_sed'), calls=('compute_sed','wave_extrapolation'))
    def compute_sed_with_extrapolation(self, times, wavelengths, graph_state, *, min_valid_wave=None, max_valid_wave=None, **kwargs):
        min_query_wave = np.min(wavelengths)
        if min_valid_wave is None:
            min_valid_wave = self.minwave(graph_state=graph_state)
        if min_valid_wave is None:
            min_valid_wave = min_query_wave
        max_query_wave = np.max(wavelengths)
        if max_valid_wave is None:
            max_valid_wave = self.maxwave(graph_state=graph_state)
        if max_valid_wave is None:
            max_valid_wave = max_query_wave
        if min_query_wave >= min_valid_wave and max_query_wave <= max_valid_wave:
            return self.compute_sed(times, wavelengths, graph_state, **kwargs)
        before_mask = wavelengths < min_valid_wave
        after_mask = wavelengths > max_valid_wave
        in_range = ~before_mask & ~after_mask
        query_waves = np.concatenate(([min_valid_wave], wavelengths[in_range], [max_valid_wave]))
        computed_flux = self.compute_sed(times, query_waves, graph_state, **kwargs)
        flux_density = np.zeros((len(times), len(wavelengths)))
        flux_density[:, in_range] = computed_flux[:, 1:-1]
        if self.wave_extrapolation is not None:
            flux_density[:, before_mask] = self.wave_extrapolation(min_valid_wave, computed_flux[:, 0], wavelengths[before_mask])
            flux_density[:, after_mask] = self.wave_extrapolation(max_valid_wave, computed_flux[:, -1], wavelengths[after_mask])
        return flux_density
