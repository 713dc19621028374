import gzip
from pathlib import Path
import numpy as np
import numpy.ma as ma
import pooch
from astropy.table import Table
from nested_pandas import NestedFrame
from lightcurvelynx.astro_utils.mag_flux import flux2mag
from lightcurvelynx.utils.io_utils import _read_lclib_data_from_open_file
from lightcurvelynx.utils.post_process_results import lightcurve_compute_mag, lightcurve_compute_snr



@ref('arrays')
def read_numpy_data(file_path):
    file_path = Path(file_path)
    if not file_path.is_file():
        raise FileNotFoundError
    if file_path.suffix == '.npy':
        data = np.load(file_path)
    elif file_path.suffix == '.npz':
        data = np.load(file_path)['arr_0']
    elif file_path.suffix in ['.csv', '.ecsv']:
        data = np.loadtxt(file_path, delimiter=',', comments='#')
    elif file_path.suffix in ['.txt', '.dat']:
        data = np.loadtxt(file_path, comments='#')
    else:
        raise ValueError
    return data


@ref('arrays', calls=('numpy.save','numpy.savez_compressed','numpy.savetxt'), uninterp=())
def write_numpy_data(file_path, data):
    file_path = Path(file_path)
    if file_path.suffix == '.npy':
        np.save(file_path, data)
    elif file_path.suffix == '.npz':
        np.savez_compressed(file_path, arr_0=data)
    elif file_path.suffix in ['.csv', '.ecsv']:
        np.savetxt(file_path, data, delimiter=',')
    elif file_path.suffix in ['.txt', '.dat']:
        np.savetxt(file_path, data)
    else:
        raise ValueError


@ref('grid')
def read_grid_data(input_file, format='ascii', validate=False):
    if not Path(input_file).is_file():
        raise FileNotFoundError
    if 'fits' in format:
        data = Table.read(input_file, format=format)
    else:
        data = Table.read(input_file, format=format, comment='\\s*#')
    if len(data.colnames) != 3:
        raise ValueError
    x0_col = data.colnames[0]
    x1_col = data.colnames[1]
    v_col = data.colnames[2]
    x0 = np.sort(np.unique(data[x0_col].data))
    x1 = np.sort(np.unique(data[x1_col].data))
    if len(data) != len(x0) * len(x1):
        raise ValueError
    if validate:
        counter = 0
        for i in range(len(x0)):
            for j in range(len(x1)):
                if data[x0_col][counter] != x0[i]:
                    raise ValueError
                if data[x1_col][counter] != x1[j]:
                    raise ValueError
                counter += 1
    values = data[v_col].data.reshape((len(x0), len(x1)))
    return (x0, x1, values)


@ref('lclib', calls=('[]=','append','astropy.table.Table'), step=True)
def _read_lclib_data_from_open_file(input_file):
    colnames = []
    curves = []
    meta = {}
    current_model = {}
    parnames = []
    in_doc_block = False
    for l_num, line in enumerate(input_file):
        line = line.split('#')[0].strip()
        if not line or ':' not in line:
            continue
        key, value = line.split(':', 1)
        value = value.strip()
        if key == 'DOCUMENTATION':
            in_doc_block = True
        elif key == 'DOCUMENTATION_END':
            in_doc_block = False
        if in_doc_block:
            continue
        if key == 'COMMENT':
            continue
        elif key == 'FILTERS':
            colnames = ['time']
            for c in value:
                colnames.append(c)
        elif key == 'END_EVENT':
            curr_id = meta.get('id', '')
            if curr_id != value:
                raise ValueError
            curves.append(Table(current_model, meta=meta))
        elif key == 'START_EVENT':
            if len(colnames) == 0:
                raise ValueError
            current_model['type'] = []
            for col in colnames:
                current_model[col] = []
            meta['id'] = value
        elif key == 'S' or key == 'T':
            current_model['type'].append(key)
            col_vals = value.split()
            if len(col_vals) != len(colnames):
                raise ValueError
            for col_idx, col in enumerate(colnames):
                current_model[col].append(float(col_vals[col_idx]))
        elif key == 'MODEL_PARNAMES' or key == 'MODEL_PARAMETERS':
            parnames = value.split(',')
        elif key == 'PARVAL':
            if ',' in value:
                all_vals = value.split(',')
            else:
                all_vals = value.split()
            if len(all_vals) != len(parnames):
                raise ValueError
            meta['PARVAL'] = {key: value for key, value in zip(parnames, all_vals, strict=False)}
        else:
            meta[key] = value
    return curves


@ref('lclib', uninterp=('_read_lclib_data_from_open_file',))
def read_lclib_data(input_file):
    input_file = Path(input_file)
    if not input_file.is_file():
        raise FileNotFoundError
    suffix = input_file.suffix.lower()
    if suffix in ['.gz', '.gzip']:
        with gzip.open(input_file, 'rt') as file_ptr:
            curves = _read_lclib_data_from_open_file(file_ptr)
    elif suffix in ['.dat', '.txt', '.text']:
        with open(input_file, 'r') as file_ptr:
            curves = _read_lclib_data_from_open_file(file_ptr)
    else:
        raise ValueError
    return curves


@ref('results')
def results_drop_empty(results):
    return results.dropna(subset=['lightcurve'])


@ref('results')
def lightcurve_compute_snr(flux, fluxerr):
    flux = np.asarray(flux)
    fluxerr = np.asarray(fluxerr)
    valid_mask = (flux > 0) & (fluxerr > 0)
    result = ma.masked_all(flux.shape)
    result[valid_mask] = flux[valid_mask] / fluxerr[valid_mask]
    return result


@ref('results', uninterp=('flux2mag',))
def lightcurve_compute_mag(flux, fluxerr):
    flux = np.asarray(flux)
    fluxerr = np.asarray(fluxerr)
    valid_mask = (flux > 0) & (fluxerr > 0)
    mag = ma.masked_all(flux.shape)
    mag[valid_mask] = flux2mag(flux[valid_mask])
    magerr = ma.masked_all(flux.shape)
    magerr[valid_mask] = 2.5 / np.log(10) * (fluxerr[valid_mask] / flux[valid_mask])
    return (mag, magerr)


@ref('results', calls=('[]=',), uninterp=('lightcurve_compute_snr','lightcurve_compute_mag'))
def augment_single_lightcurve(results, *, min_snr=0.0, t0=None):
    if 'flux' not in results.columns or 'fluxerr' not in results.columns:
        raise ValueError
    flux = results['flux']
    fluxerr = results['fluxerr']
    snr = lightcurve_compute_snr(flux, fluxerr)
    results['snr'] = snr
    results['detection'] = [x is not ma.masked and x >= min_snr for x in snr]
    mag, magerr = lightcurve_compute_mag(flux, fluxerr)
    results['mag'] = mag
    results['magerr'] = magerr
    if t0 is not None and 'mjd' in results.columns:
        results['time_rel'] = results['mjd'] - t0


@ref('results', calls=('[]=',), uninterp=('lightcurve_compute_snr','lightcurve_compute_mag'))
def results_augment_lightcurves(results, *, min_snr=0.0):
    if not isinstance(results, NestedFrame) or 'lightcurve' not in results.columns:
        raise ValueError
    if 'flux' not in results['lightcurve'].nest.fields or 'fluxerr' not in results['lightcurve'].nest.fields:
        raise ValueError
    flux = results['lightcurve.flux']
    fluxerr = results['lightcurve.fluxerr']
    snr = lightcurve_compute_snr(flux, fluxerr)
    results['lightcurve.snr'] = snr
    results['lightcurve.detection'] = [x is not ma.masked and x >= min_snr for x in snr]
    mag, magerr = lightcurve_compute_mag(flux, fluxerr)
    results['lightcurve.mag'] = mag
    results['lightcurve.magerr'] = magerr
    if 't0' in results.columns and results['t0'].notna().all():
        if 'mjd' not in results['lightcurve'].nest.fields:
            raise ValueError
        t0 = np.repeat(results['t0'].to_numpy(), results['lightcurve'].nest.list_lengths)
        results['lightcurve.time_rel'] = results['lightcurve.mjd'] - t0


@ref('download', calls=('mkdir','unlink','pooch.retrieve'))
def download_data_file_if_needed(data_path, data_url, force_download=False):
    data_path = Path(data_path)
    if not force_download and data_path.exists():
        return True
    if data_url is None or len(data_url) == 0:
        raise ValueError
    data_path.parent.mkdir(parents=True, exist_ok=True)
    if force_download:
        data_path.unlink(missing_ok=True)
    full_path = pooch.retrieve(url=data_url, known_hash=None, fname=data_path.name, path=data_path.parent)
    if full_path is None or not Path(full_path).exists():
        return False
    return True
