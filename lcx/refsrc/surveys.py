import numpy as np
import pandas as pd
from lightcurvelynx import _LIGHTCURVELYNX_BASE_DATA_DIR
from lightcurvelynx.astro_utils.mag_flux import mag2flux
from lightcurvelynx.astro_utils.noise_model import poisson_bandflux_std
from lightcurvelynx.astro_utils.zeropoint import _lsstcam_extinction_coeff, _lsstcam_zeropoint_per_sec_zenith, flux_electron_zeropoint
from lightcurvelynx.consts import GAUSS_EFF_AREA2FWHM_SQ
from lightcurvelynx.obstable.obs_table import ObsTable
from lightcurvelynx.utils.data_download import download_data_file_if_needed
import sqlite3
from pathlib import Path
from astropy.time import Time
from lightcurvelynx.astro_utils.zeropoint import calculate_zp_from_maglim
from astropy.table import Table
from citation_compass import cite_function


class OpSim:
    @ref('surveys', uninterp=('ObsTable.__init__',), calls=('__init__',))
    def __init__(self, table, colmap=None, **kwargs):
        colmap = self._default_colnames if colmap is None else colmap
        super().__init__(table, colmap=colmap, **kwargs)

    @ref('surveys', uninterp=('flux_electron_zeropoint', 'ObsTable.add_column'), calls=('add_column',))
    def _assign_zero_points(self):
        cols = self._table.columns.to_list()
        if not ('filter' in cols and 'airmass' in cols and ('exptime' in cols)):
            raise ValueError
        zp_values = flux_electron_zeropoint(ext_coeff=self.safe_get_survey_value('ext_coeff'), instr_zp_mag=self.safe_get_survey_value('zp_per_sec'), band=self._table['filter'], airmass=self._table['airmass'], exptime=self._table['exptime'])
        self.add_column('zp', zp_values, overwrite=True)

    @ref('surveys', uninterp=('ObsTable.from_db', 'download_data_file_if_needed'), calls=('from_db',))
    def from_url(cls, opsim_url, force_download=False):
        data_file_name = opsim_url.split('/')[-1]
        data_path = _LIGHTCURVELYNX_BASE_DATA_DIR / 'opsim' / data_file_name
        if not download_data_file_if_needed(data_path, opsim_url, force_download=force_download):
            raise RuntimeError
        return cls.from_db(data_path)


@ref('surveys', uninterp=('OpSim.__init__',), calls=('__init__',))
def create_random_opsim(num_obs, seed=None):
    if num_obs <= 0:
        raise ValueError
    rng = np.random.default_rng() if seed is None else np.random.default_rng(seed=seed)
    ra = np.degrees(rng.uniform(0.0, 2.0 * np.pi, size=num_obs))
    dec = np.degrees(np.arccos(2.0 * rng.uniform(0.0, 1.0, size=num_obs) - 1.0) - np.pi / 2.0)
    airmass = rng.uniform(1.3, 1.7, size=num_obs)
    filter = rng.choice(['u', 'g', 'r', 'i', 'z', 'y'], size=num_obs)
    input_data = {'observationStartMJD': 0.05 * np.arange(num_obs), 'fieldRA': ra, 'fieldDec': dec, 'airmass': airmass, 'filter': filter, 'visitExposureTime': 29.0 * np.ones(num_obs)}
    opsim = OpSim(input_data)
    return opsim


@ref('surveys', uninterp=('ObsTable.add_column',), calls=('add_column',))
def opsim_add_random_data(opsim_data, colname, min_val=0.0, max_val=1.0):
    values = np.random.uniform(low=min_val, high=max_val, size=len(opsim_data))
    opsim_data.add_column(colname, values)


@ref('surveys', uninterp=('OpSim.__init__', 'ObsTable.range_search'), calls=('__init__',))
def oversample_opsim(opsim, *, pointing=(200, -50), search_radius=1.75, delta_t=0.01, time_range=(None, None), bands=None, strategy='darkest_sky'):
    ra, dec = pointing
    observations = opsim._table.iloc[opsim.range_search(ra, dec, radius=search_radius)]
    if len(observations) == 0:
        raise ValueError
    time_min, time_max = time_range
    if time_min is None:
        time_min = np.min(observations['time'])
    if time_max is None:
        time_max = np.max(observations['time'])
    if time_min >= time_max:
        raise ValueError
    uniq_bands = np.unique(observations['filter'])
    if bands is None:
        bands = uniq_bands
    elif not set(bands).issubset(uniq_bands):
        raise ValueError
    new_times = np.arange(time_min, time_max, delta_t)
    n = len(new_times)
    if n < len(bands):
        raise ValueError
    new_table = pd.DataFrame({'observationId': opsim._table['observationId'].max() + 1 + np.arange(n), 'time': new_times, 'ra': ra, 'dec': dec, 'filter': np.resize(bands, n)})
    other_columns = [column for column in observations.columns if column not in new_table.columns]
    if strategy == 'darkest_sky':
        for band in bands:
            idxmax = observations['skybrightness'][observations['filter'] == band].idxmax()
            idx = new_table.index[new_table['filter'] == band]
            darkest_sky_obs = pd.DataFrame.from_records([observations.loc[idxmax]] * idx.size, index=idx)
            new_table.loc[idx, other_columns] = darkest_sky_obs[other_columns]
    elif strategy == 'random':
        rng = np.random.default_rng(0)
        for band in bands:
            single_band_obs = observations[observations['filter'] == band]
            idx = new_table.index[new_table['filter'] == band]
            random_obs = single_band_obs.sample(idx.size, replace=True, random_state=rng).set_index(idx)
            new_table.loc[idx, other_columns] = random_obs[other_columns]
    else:
        raise ValueError
    return OpSim(new_table, colmap=opsim._colmap, **opsim.survey_values)


class ZTFObsTable:
    @ref('surveys', uninterp=('ObsTable.__init__',), calls=('__init__',))
    def __init__(self, table, colmap=None, **kwargs):
        colmap = self._default_colnames if colmap is None else colmap
        if 'obsdate' in table and 'obsmjd' not in table:
            table = table.copy()
            t = Time(list(table['obsdate']), format='iso', scale='utc')
            table['obsmjd'] = t.mjd
        super().__init__(table, colmap=colmap, **kwargs)

    @ref('surveys', uninterp=('calculate_zp_from_maglim', 'ObsTable.add_column'), calls=('add_column',), attrs=('_table',))
    def _assign_zero_points(self):
        cols = self._table.columns.tolist()
        if not ('maglim' in cols and 'sky' in cols and ('fwhm' in cols) and ('exptime' in cols)):
            raise ValueError
        self._table = self._table.replace('', np.nan)
        self._table = self._table.dropna(subset=['fwhm'])
        zp_values = calculate_zp_from_maglim(maglim=self._table['maglim'], sky=self._table['sky'], fwhm=self._table['fwhm'], gain=self.safe_get_survey_value('gain'), readnoise=self.safe_get_survey_value('read_noise'), darkcurrent=self.safe_get_survey_value('dark_current'), exptime=self._table['exptime'], nexposure=1)
        zp_nJy = mag2flux(zp_values)
        self.add_column('zp', zp_nJy, overwrite=True)

    @ref('surveys', uninterp=('ZTFObsTable.__init__',), calls=('__init__', 'close'))
    def from_db(cls, filename, sql_query='SELECT * from exposures', colmap=None):
        if colmap is None:
            colmap = cls._default_colnames
        if not Path(filename).is_file():
            raise FileNotFoundError
        con = sqlite3.connect(f'file:{filename}?mode=ro', uri=True)
        try:
            obstable = pd.read_sql_query(sql_query, con)
        except Exception:
            raise ValueError
        con.close()
        return ZTFObsTable(obstable, colmap=colmap)


@ref('surveys')
def create_random_ztf_obs_data(num_obs, seed=None):
    if num_obs <= 0:
        raise ValueError
    rng = np.random.default_rng() if seed is None else np.random.default_rng(seed=seed)
    ra = np.degrees(rng.uniform(0.0, 2.0 * np.pi, size=num_obs))
    dec = np.degrees(np.arccos(2.0 * rng.uniform(0.0, 1.0, size=num_obs) - 1.0) - np.pi / 2.0)
    maglim = rng.uniform(19.0, 21.0, size=num_obs)
    sky = rng.uniform(100.0, 200.0, size=num_obs)
    fwhm = rng.uniform(1.0, 3.0, size=num_obs)
    filter = rng.choice(['g', 'r', 'i'], size=num_obs)
    input_data = {'obsdate': ['2018-03-25 06:04:40.000'] * num_obs, 'ra': ra, 'dec': dec, 'maglim': maglim, 'scibckgnd': sky, 'fwhm': fwhm, 'filter': filter, 'exptime': 30.0 * np.ones(num_obs)}
    return pd.DataFrame(input_data)


class FakeObsTable:
    @ref('surveys', uninterp=('ObsTable.__init__', 'ObsTable._assign_constant_if_needed', 'ObsTable.add_column'), calls=('__init__', '_assign_constant_if_needed', 'add_column'), attrs=('zp_per_band', 'const_flux_error'))
    def __init__(self, table, *, colmap=None, zp_per_band=None, const_flux_error=None, dark_current=0, exptime=30, psf_footprint=None, fwhm_px=None, nexposure=1, radius=None, read_noise=0, sky=None, **kwargs):
        self.zp_per_band = zp_per_band
        self.const_flux_error = const_flux_error
        super().__init__(table, colmap=colmap, dark_current=dark_current, exptime=exptime, psf_footprint=psf_footprint, fwhm_px=fwhm_px, nexposure=nexposure, radius=radius, read_noise=read_noise, sky=sky, **kwargs)
        if const_flux_error is not None:
            if isinstance(const_flux_error, int | float):
                self.const_flux_error = {fil: const_flux_error for fil in self.filters}
            for fil in self.filters:
                if fil not in self.const_flux_error:
                    raise ValueError
            for fil, val in self.const_flux_error.items():
                if val < 0:
                    raise ValueError
        else:
            if not self._assign_constant_if_needed('exptime', check_positive=True):
                raise ValueError
            if not self._assign_constant_if_needed('nexposure', check_positive=True):
                raise ValueError
            if not self._assign_constant_if_needed('psf_footprint', check_positive=True):
                if not self._assign_constant_if_needed('fwhm_px', check_positive=True):
                    raise ValueError
                psf_footprint = GAUSS_EFF_AREA2FWHM_SQ * self._table['fwhm_px'] ** 2
                self.add_column('psf_footprint', psf_footprint)
            if not self._assign_constant_if_needed('sky', check_positive=False):
                raise ValueError

    @ref('surveys', uninterp=('ObsTable.add_column',), calls=('add_column',))
    def _assign_zero_points(self):
        if 'zp' in self._table.columns:
            return
        if self.zp_per_band is None:
            raise ValueError
        if 'filter' not in self._table.columns:
            raise ValueError
        for fil in self.filters:
            if fil not in self.zp_per_band:
                raise ValueError
        zp_col = np.zeros(len(self._table), dtype=float)
        for key, val in self.zp_per_band.items():
            if val <= 0:
                raise ValueError
            zp_col[self._table['filter'] == key] = val
        self.add_column('zp', zp_col, overwrite=True)


@ref('surveys')
def _get_roman_char():
    psf_table = Table.read(_psf_url, format='csv', comment='#').to_pandas()
    zp_table = Table.read(_zp_url, format='csv', comment='#', delimiter=' ').to_pandas()
    thermal_table = Table.read(_thermal_url, format='csv', comment='#').to_pandas()
    zodiacal_table = Table.read(_zodiacal_url, format='csv', comment='#').to_pandas()
    return {'psf_table': psf_table, 'zp_table': zp_table, 'thermal_table': thermal_table, 'zodiacal_min_table': zodiacal_table}


@ref('surveys')
def _get_ma_table(ma_table_path=None):
    if ma_table_path is None:
        ma_table_path = _LIGHTCURVELYNX_BASE_DATA_DIR / 'roman_characterization/roman_wfi_imaging_multiaccum_tables_with_exptime.csv'
    ma_table = pd.read_csv(ma_table_path)
    return ma_table


class RomanObsTable:
    @ref('surveys', uninterp=('ObsTable.__init__', 'RomanObsTable._append_apt_table', '_get_roman_char', '_get_ma_table'), calls=('__init__', '_append_apt_table'), attrs=('ma_table', 'zp_table', 'psf_table', 'thermal_table', 'zodiacal_table', 'apt_table'))
    def __init__(self, table, colmap=None, ma_table_path=None, **kwargs):
        colmap = self._default_colnames if colmap is None else colmap
        self.apt_table = table.copy()
        self.ma_table = _get_ma_table(ma_table_path)
        roman_char = _get_roman_char()
        self.zp_table = roman_char['zp_table']
        self.psf_table = roman_char['psf_table']
        self.thermal_table = roman_char['thermal_table']
        self.zodiacal_table = roman_char['zodiacal_min_table']
        self._append_apt_table()
        super().__init__(self.apt_table, colmap=colmap, **kwargs)

    @ref('surveys', attrs=('apt_table', 'start_time', 'cadence'))
    def _append_apt_table(self):
        self.apt_table['zp_abmag'] = 0.0
        self.apt_table['N_Eff_Pix'] = 0.0
        self.apt_table['zodi_countrate_min'] = 0.0
        self.apt_table['thermal_countrate'] = 0.0
        self.apt_table['time'] = 0.0
        self.apt_table['exptime'] = 0.0
        for f in np.unique(self.apt_table.BANDPASS):
            zp_abmag = self.zp_table.loc[self.zp_table.element == f, 'ABMag'].values[0]
            self.apt_table.loc[f == self.apt_table.BANDPASS, 'zp_abmag'] = zp_abmag
            n_eff_pix = self.psf_table.loc[self.psf_table['Filter'] == f, 'N_Eff_Pix'].values[0]
            self.apt_table.loc[f == self.apt_table.BANDPASS, 'N_Eff_Pix'] = n_eff_pix
            sigma_zodi_min = self.zodiacal_table.loc[self.zodiacal_table['filter'] == f, 'rate'].values[0]
            self.apt_table.loc[f == self.apt_table.BANDPASS, 'zodi_countrate_min'] = sigma_zodi_min
            sigma_thermal = self.thermal_table.loc[self.thermal_table['filter'] == f, 'rate'].values[0]
            self.apt_table.loc[f == self.apt_table.BANDPASS, 'thermal_countrate'] = sigma_thermal
        for mat_number in np.unique(self.apt_table.MA_TABLE_NUMBER):
            exptime = self.ma_table.loc[self.ma_table['MATableNumber'] == mat_number, 'Exptime'].values[0]
            self.apt_table.loc[mat_number == self.apt_table.MA_TABLE_NUMBER, 'exptime'] = exptime
        npass = len(np.unique(self.apt_table.PASS))
        self.start_time = 61304.0
        self.cadence = 5.0
        times = self.start_time + self.cadence * np.arange(npass)
        for i, pass_num in enumerate(np.unique(self.apt_table.PASS)):
            self.apt_table.loc[pass_num == self.apt_table.PASS, 'time'] = times[i]
        self.apt_table['zp_nJy'] = mag2flux(self.apt_table['zp_abmag'])

    @ref('surveys')
    def readnoise_func(self, exptime):
        exptime = np.asarray(exptime)
        sigma_floor_sq = 25.0
        sigma_sq = 3072.0
        n = exptime / 3.04
        nfactor = (n - 1) / n / (n + 1)
        sigma_read = np.sqrt(sigma_floor_sq + sigma_sq * nfactor)
        return sigma_read

    @ref('surveys')
    def calculate_skynoise(self, exptime, zodi_scale, zodi_countrate_min, thermal_countrate):
        exptime = np.asarray(exptime)
        zodi_scale = np.asarray(zodi_scale)
        zodi_countrate_min = np.asarray(zodi_countrate_min)
        thermal_countrate = np.asarray(thermal_countrate)
        sky_variance = exptime * (zodi_scale * zodi_countrate_min + thermal_countrate)
        return sky_variance
