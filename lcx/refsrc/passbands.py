import logging
from pathlib import Path
from typing import Literal, Union
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import scipy.integrate
from astropy.io.votable import parse
from citation_compass import cite_function
from lightcurvelynx import _LIGHTCURVELYNX_BASE_DATA_DIR
from lightcurvelynx.consts import lsst_filter_plot_colors
from lightcurvelynx.utils.data_download import download_data_file_if_needed


class PassbandGroup:
    @ref('group', attrs=('passbands',), uninterp=('Passband.from_file','_update_internal_data'), calls=('from_file','_update_internal_data'))
    def __init__(self, given_passbands, filters=None, **kwargs):
        self.passbands = {}
        self._in_band_wave_indices = {}
        self._filter_to_name = {}
        if isinstance(given_passbands, Passband):
            given_passbands = [given_passbands]
        elif isinstance(given_passbands, dict):
            given_passbands = [given_passbands]
        elif given_passbands is None or len(given_passbands) == 0:
            raise ValueError
        for pb in given_passbands:
            if isinstance(pb, Passband):
                self.passbands[pb.full_name] = pb
            elif isinstance(pb, dict):
                params = pb.copy()
                for key, value in kwargs.items():
                    if key not in params:
                        params[key] = value
                passband = Passband.from_file(**params)
                self.passbands[passband.full_name] = passband
            else:
                raise TypeError
        if filters is not None:
            filters = set(filters)
            filters_remaining = filters.copy()
            all_bands = list(self.passbands.keys())
            for pb_name in all_bands:
                pb_obj = self.passbands[pb_name]
                if pb_name in filters:
                    filters_remaining.discard(pb_name)
                elif pb_obj.filter_name in filters:
                    filters_remaining.discard(pb_obj.filter_name)
                else:
                    del self.passbands[pb_name]
            if len(filters_remaining) != 0:
                raise ValueError
        self._update_internal_data()

    @ref('group')
    def __len__(self):
        return len(self.passbands)

    @ref('group')
    def __getitem__(self, key):
        if key in self.passbands:
            return self.passbands[key]
        elif key in self._filter_to_name:
            pb_list = self._filter_to_name[key]
            if len(pb_list) > 1:
                raise KeyError
            return self.passbands[pb_list[0]]
        else:
            raise KeyError

    @ref('group')
    def __contains__(self, key):
        if key in self.passbands:
            return True
        elif key in self._filter_to_name:
            return True
        return False

    @ref('group')
    def __iter__(self):
        for pb in self.passbands.values():
            yield pb

    @ref('group')
    def filters(self):
        return list(self._filter_to_name.keys())

    @ref('loading', uninterp=('PassbandGroup.__init__',), calls=('__init__',))
    def from_dir(cls, dir_path: Union[str, Path], filters: list | None=None, delta_wave: float | None=5.0, trim_quantile: float | None=0.001, units: Literal['nm', 'A'] | None='A'):
        dir_path = Path(dir_path)
        if not dir_path.is_dir():
            raise ValueError
        all_params = []
        for entry in sorted(dir_path.iterdir()):
            if entry.is_file():
                filter_name = entry.stem
                if filters is None or filter_name in filters:
                    params = {'survey': dir_path.name, 'filter_name': filter_name, 'table_path': entry, 'delta_wave': delta_wave, 'trim_quantile': trim_quantile, 'units': units}
                    all_params.append(params)
        return PassbandGroup(given_passbands=all_params, filters=filters)

    @ref('loading', uninterp=('PassbandGroup.__init__','_lsst_load_preset','_roman_load_preset','Passband.from_sncosmo'), calls=('__init__','_lsst_load_preset','_roman_load_preset','from_sncosmo'))
    def from_preset(cls, preset: str, table_dir=None, filters=None, **kwargs):
        table_dir = Path(table_dir) if table_dir is not None else Path(_LIGHTCURVELYNX_BASE_DATA_DIR, 'passbands')
        preset = preset.lower()
        if preset == 'lsst':
            passbands = PassbandGroup._lsst_load_preset(table_dir, **kwargs)
        elif preset == 'ztf':
            passbands = []
            for filter_name in ['g', 'r', 'i']:
                pb = Passband.from_sncosmo('ZTF', filter_name, f'ztf{filter_name}', **kwargs)
                passbands.append(pb)
        elif preset == 'roman':
            passbands = PassbandGroup._roman_load_preset(table_dir, **kwargs)
        else:
            raise ValueError
        return cls(given_passbands=passbands, filters=filters, **kwargs)

    @ref('loading', uninterp=('Passband.from_file',), calls=('from_file',))
    def _lsst_load_preset(table_dir, **kwargs):
        passbands = []
        if 'units' not in kwargs:
            kwargs['units'] = 'nm'
        elif kwargs['units'] != 'nm':
            raise ValueError
        for filter_name in ['u', 'g', 'r', 'i', 'z', 'y']:
            url = f'https://github.com/lsst/throughputs/blob/main/baseline/total_{filter_name}.dat?raw=true'
            pb = Passband.from_file('LSST', filter_name, table_path=table_dir / 'LSST' / f'{filter_name}.dat', table_url=url, **kwargs)
            passbands.append(pb)
        return passbands

    @ref('loading', uninterp=('Passband.__init__','download_data_file_if_needed'), calls=('__init__','download_data_file_if_needed'))
    def _roman_load_preset(table_dir, **kwargs):
        passbands = []
        if kwargs.get('units', 'micron') != 'micron':
            raise ValueError
        force_download = kwargs.pop('force_download', False)
        kwargs.pop('units', None)
        table_path = table_dir / 'Roman' / 'roman_wfi_filters.ecsv'
        table_url = 'https://github.com/RomanSpaceTelescope/roman-technical-information/blob/main/data/WideFieldInstrument/Imaging/EffectiveAreas/Roman_effarea_v8_SCA01_20240301.ecsv?raw=true'
        success = download_data_file_if_needed(table_path, table_url, force_download=force_download)
        if not success:
            raise RuntimeError
        table = pd.read_csv(table_path, comment='#', sep='[\\s,]+', engine='python')
        waves = table['Wave'].values * 10000
        for filter_name in ['F062', 'F087', 'F106', 'F129', 'F146', 'F158', 'F184', 'F213']:
            table_values = np.vstack([waves, table[filter_name].values.astype(float)]).T
            pb = Passband(table_values, 'Roman', filter_name, **kwargs)
            passbands.append(pb)
        return passbands

    @ref('loading', uninterp=('PassbandGroup.__init__','Passband.from_svo'), calls=('__init__','from_svo'))
    def from_svo(cls, all_filters: list[str], delta_wave: float | None=5.0, trim_quantile: float | None=0.001, table_dir: Union[str, Path] | None=None, force_download: bool=False, **kwargs):
        passband_list = []
        for full_filter_name in all_filters:
            pb = Passband.from_svo(full_filter_name, delta_wave=delta_wave, trim_quantile=trim_quantile, table_dir=table_dir, force_download=force_download, **kwargs)
            passband_list.append(pb)
        return cls(given_passbands=passband_list, **kwargs)

    @ref('group', uninterp=('_update_internal_data',), calls=('_update_internal_data','[]='))
    def add_passband(self, passband):
        self.passbands[passband.full_name] = passband
        self._update_internal_data()

    @ref('group', attrs=('_filter_to_name',), uninterp=('_update_waves',), calls=('_update_waves',))
    def _update_internal_data(self):
        self._filter_to_name = {}
        for full_name, pb_obj in self.passbands.items():
            if pb_obj.filter_name in self._filter_to_name:
                self._filter_to_name[pb_obj.filter_name].append(full_name)
            else:
                self._filter_to_name[pb_obj.filter_name] = [full_name]
        self._update_waves()

    @ref('group', attrs=('waves','_in_band_wave_indices'))
    def _update_waves(self, threshold=1e-05):
        if len(self.passbands) == 0:
            self.waves = np.array([])
        else:
            all_waves = np.concatenate([passband.waves for passband in self.passbands.values()])
            sorted_waves = np.sort(all_waves)
            gap_sizes = np.insert(sorted_waves[1:] - sorted_waves[:-1], 0, 100000000.0)
            self.waves = sorted_waves[gap_sizes >= threshold]
        self._in_band_wave_indices = {}
        for name, passband in self.passbands.items():
            lower, upper = (passband.waves[0], passband.waves[-1])
            lower_index, upper_index = np.searchsorted(self.waves, [lower, upper], side='right') - 1
            if np.array_equal(self.waves[lower_index:upper_index + 1], passband.waves):
                indices = slice(lower_index, upper_index + 1)
            else:
                indices = np.searchsorted(self.waves, passband.waves, side='right') - 1
            self._in_band_wave_indices[name] = indices

    @ref('group')
    def wave_bounds(self):
        min_wave = np.min(self.waves)
        max_wave = np.max(self.waves)
        return (min_wave, max_wave)

    @ref('group')
    def mask_by_filter(self, filters):
        filters = np.asarray(filters)
        full_name_mask = np.isin(filters, list(self.passbands.keys()))
        filter_name_mask = np.isin(filters, list(self._filter_to_name.keys()))
        return full_name_mask | filter_name_mask

    @ref('group', uninterp=('Passband.process_transmission_table','_update_internal_data'), calls=('process_transmission_table','_update_internal_data'))
    def process_transmission_tables(self, delta_wave: float | None=5.0, trim_quantile: float | None=0.001):
        for passband in self.passbands.values():
            passband.process_transmission_table(delta_wave, trim_quantile)
        self._update_internal_data()

    @ref('group', uninterp=('Passband.fluxes_to_bandflux',))
    def fluxes_to_bandflux(self, flux_density_matrix: np.ndarray, filter: str):
        if filter not in self.passbands:
            if filter in self._filter_to_name:
                if len(self._filter_to_name[filter]) > 1:
                    raise ValueError
                filter = self._filter_to_name[filter][0]
            else:
                raise ValueError
        passband = self.passbands[filter]
        wave_indices = self._in_band_wave_indices[filter]
        if wave_indices is None:
            raise ValueError
        single_band_fluxes = flux_density_matrix[:, wave_indices]
        bandflux = passband.fluxes_to_bandflux(single_band_fluxes)
        return bandflux

    @ref('group', uninterp=('PassbandGroup.fluxes_to_bandflux',))
    def fluxes_to_bandfluxes(self, flux_density_matrix: np.ndarray):
        if flux_density_matrix.size == 0 or len(self.waves) != len(flux_density_matrix[0]):
            flux_density_matrix_num_cols = 0 if flux_density_matrix.size == 0 else len(flux_density_matrix[0])
            raise ValueError
        bandfluxes = {}
        for full_name in self.passbands:
            bandfluxes[full_name] = self.fluxes_to_bandflux(flux_density_matrix, full_name)
        return bandfluxes

class Passband:
    @ref('integral', attrs=('survey','filter_name','full_name','_loaded_table'), uninterp=('process_transmission_table',), calls=('process_transmission_table',))
    def __init__(self, table_values: np.array, survey: str, filter_name: str, delta_wave: float | None=5.0, trim_quantile: float | None=0.001, units: Literal['nm', 'A'] | None='A'):
        self.survey = survey
        self.filter_name = filter_name
        self.full_name = f'{survey}_{filter_name}'
        self.delta_wave = delta_wave
        if table_values.shape[1] != 2:
            raise ValueError
        diffs = np.diff(table_values[:, 0])
        if np.any(diffs < 0.0):
            raise ValueError
        if np.any(diffs == 0.0):
            waves, inverse, counts = np.unique(table_values[:, 0], return_inverse=True, return_counts=True)
            mean_values = np.bincount(inverse, weights=table_values[:, 1]) / counts
            table_values = np.column_stack((waves, mean_values))
        self._loaded_table = np.copy(table_values)
        if units == 'nm':
            self._loaded_table[:, 0] *= 10.0
        elif units != 'A':
            raise ValueError
        self.process_transmission_table(delta_wave, trim_quantile)

    @ref('integral')
    def __eq__(self, other):
        if len(self.waves) != len(other.waves):
            return False
        if not np.allclose(self.waves, other.waves):
            return False
        if self.processed_transmission_table.shape != other.processed_transmission_table.shape:
            return False
        return np.allclose(self.processed_transmission_table, other.processed_transmission_table)

    @ref('loading', uninterp=('Passband.__init__','load_transmission_table','download_data_file_if_needed'), calls=('__init__','load_transmission_table','download_data_file_if_needed'))
    def from_file(cls, survey: str, filter_name: str, delta_wave: float | None=5.0, trim_quantile: float | None=0.001, table_path: Union[str, Path] | None=None, table_url: str | None=None, units: Literal['nm', 'A'] | None='A', force_download: bool=False):
        if table_path is None:
            table_path = Path(_LIGHTCURVELYNX_BASE_DATA_DIR, 'passbands', survey, f'{filter_name}.dat')
        else:
            table_path = Path(table_path)
        success = download_data_file_if_needed(table_path, table_url, force_download=force_download)
        if not success:
            raise RuntimeError
        loaded_table = Passband.load_transmission_table(table_path, wave_units=units)
        return Passband(loaded_table, survey, filter_name, delta_wave, trim_quantile, units='A')

    @ref('loading', uninterp=('Passband.__init__',), calls=('__init__',))
    def from_sncosmo(cls, survey: str, filter_name: str, bandpass=None, **kwargs):
        if bandpass is None:
            raise ValueError
        elif isinstance(bandpass, str):
            try:
                from sncosmo import get_bandpass
            except ImportError as err:
                raise ImportError
            bandpass = get_bandpass(bandpass)
        table = np.column_stack([bandpass.wave, bandpass.trans])
        return Passband(table, survey, filter_name, trim_quantile=None, units='A')

    @ref('loading', uninterp=('Passband.from_file',), calls=('from_file',))
    def from_svo(cls, full_filter_name, delta_wave: float | None=5.0, trim_quantile: float | None=0.001, table_dir: Union[str, Path] | None=None, force_download: bool=False, **kwargs):
        survey, filter = full_filter_name.split('.')
        if table_dir is None:
            table_dir = Path(_LIGHTCURVELYNX_BASE_DATA_DIR, 'passbands', survey)
        else:
            table_dir = Path(table_dir) / survey
        table_path = Path(table_dir, f'{filter}.xml')
        table_url = f'https://svo2.cab.inta-csic.es/svo/theory/fps3/fps.php?ID={full_filter_name}'
        return cls.from_file(survey=survey, filter_name=filter, delta_wave=delta_wave, trim_quantile=trim_quantile, table_path=table_path, table_url=table_url, force_download=force_download, **kwargs)

    @ref('loading')
    def load_transmission_table(table_path: Union[str, Path], wave_units: Literal['nm', 'A']='A', **kwargs):
        table_path = Path(table_path)
        if not table_path.exists():
            raise FileNotFoundError
        if table_path.suffix in ['.xml', '.vot', '.votable']:
            table = parse(table_path).get_first_table()
            if len(table.fields) != 2:
                raise ValueError
            if not table.fields[0].name.lower().startswith('wave'):
                raise ValueError
            loaded_table = np.zeros((len(table.array), 2), dtype=float)
            loaded_table[:, 0] = table.array[table.fields[0].name]
            loaded_table[:, 1] = table.array[table.fields[1].name]
            wave_unit_name = table.fields[0].unit.name.lower()
            if wave_unit_name in ['nm', 'nanometers', 'namo', 'nanometer']:
                wave_units = 'nm'
            elif wave_unit_name in ['a', 'aa', 'angstrom', 'angstroms']:
                wave_units = 'A'
            else:
                raise ValueError
        elif table_path.suffix in ['.csv', '.ecsv', '.txt', '.dat']:
            if (table_path.suffix == '.csv' or table_path.suffix == '.ecsv') and 'delimiter' not in kwargs:
                kwargs['delimiter'] = ','
            loaded_table = np.loadtxt(table_path, **kwargs)
        else:
            raise ValueError
        if loaded_table.size == 0 or loaded_table.shape[1] != 2:
            raise ValueError
        if wave_units == 'nm':
            loaded_table[:, 0] *= 10.0
        elif wave_units != 'A':
            raise ValueError
        diffs = np.diff(loaded_table[:, 0])
        if np.any(diffs < 0.0):
            raise ValueError
        if np.any(diffs == 0.0):
            waves, inverse, counts = np.unique(loaded_table[:, 0], return_inverse=True, return_counts=True)
            mean_values = np.bincount(inverse, weights=loaded_table[:, 1]) / counts
            loaded_table = np.column_stack((waves, mean_values))
        return loaded_table

    @ref('integral', attrs=('processed_transmission_table','waves','delta_wave'), uninterp=('_interpolate_transmission_table','_trim_transmission_by_quantile','_normalize_transmission_table'))
    def process_transmission_table(self, delta_wave: float | None=5.0, trim_quantile: float | None=0.001):
        interpolated_table = self._interpolate_transmission_table(self._loaded_table, delta_wave)
        trimmed_table = self._trim_transmission_by_quantile(interpolated_table, trim_quantile)
        self.processed_transmission_table = self._normalize_transmission_table(trimmed_table)
        self.waves = self.processed_transmission_table[:, 0]
        self.delta_wave = delta_wave
        if delta_wave is not None:
            self.delta_wave = (self.waves[-1] - self.waves[0]) / (len(self.waves) - 1)

    @ref('integral')
    def _interpolate_transmission_table(self, table: np.ndarray, delta_wave: float | None):
        if delta_wave is None:
            return table
        if np.allclose(np.diff(table[:, 0]), delta_wave):
            return table
        wavelengths = table[:, 0]
        lower_bound, upper_bound = (wavelengths[0], wavelengths[-1])
        new_wavelengths = np.linspace(lower_bound, upper_bound, int((upper_bound - lower_bound) / delta_wave) + 1)
        spline = scipy.interpolate.InterpolatedUnivariateSpline(table[:, 0], table[:, 1], ext='raise', k=1)
        interpolated_transmissions = spline(new_wavelengths)
        return np.column_stack((new_wavelengths, interpolated_transmissions))

    @ref('integral')
    def _trim_transmission_by_quantile(self, table: np.ndarray, trim_quantile: float | None):
        if trim_quantile is None or trim_quantile == 0.0:
            return table
        if trim_quantile < 0 or trim_quantile >= 0.5:
            raise ValueError
        wavelengths = table[:, 0]
        transmissions = table[:, 1]
        cumulative_area = scipy.integrate.cumulative_trapezoid(transmissions, x=wavelengths)
        cumulative_area /= cumulative_area[-1]
        lower_bound = max(np.searchsorted(cumulative_area, trim_quantile, side='right') - 1, 0)
        upper_bound = np.searchsorted(cumulative_area, 1 - trim_quantile)
        trimmed_table = table[lower_bound:upper_bound + 1]
        return trimmed_table

    @ref('integral')
    def _normalize_transmission_table(self, transmission_table: np.ndarray):
        if transmission_table.size == 0:
            raise ValueError
        elif transmission_table.shape[0] == 1:
            raise ValueError
        elif transmission_table.ndim != 2 or transmission_table.shape[1] != 2:
            raise ValueError
        wavelengths_angstrom = transmission_table[:, 0]
        transmissions = transmission_table[:, 1]
        numerators = transmissions / wavelengths_angstrom
        denominator = scipy.integrate.trapezoid(numerators, x=wavelengths_angstrom)
        if denominator == 0:
            raise ValueError
        normalized_transmissions = numerators / denominator
        return np.column_stack((wavelengths_angstrom, normalized_transmissions))

    @ref('integral')
    def fluxes_to_bandflux(self, flux_density_matrix: np.ndarray):
        if flux_density_matrix.size == 0:
            raise ValueError
        if len(flux_density_matrix.shape) == 2:
            w_axis = 1
            flux_density_matrix_num_cols = flux_density_matrix.shape[1]
        elif len(flux_density_matrix.shape) == 3:
            w_axis = 2
            flux_density_matrix_num_cols = flux_density_matrix.shape[2]
        else:
            raise ValueError
        if len(self.waves) != flux_density_matrix_num_cols:
            raise ValueError
        integrand = flux_density_matrix * self.processed_transmission_table[:, 1]
        if self.delta_wave is not None:
            first_val = np.take(integrand, 0, axis=w_axis)
            last_val = np.take(integrand, -1, axis=w_axis)
            bandfluxes = (np.sum(integrand, axis=w_axis) - 0.5 * (first_val + last_val)) * self.delta_wave
        else:
            bandfluxes = scipy.integrate.trapezoid(integrand, x=self.waves, axis=w_axis)
        return bandfluxes
