import sqlite3
from pathlib import Path
import astropy.units as u
import numpy as np
import pandas as pd
from astropy.coordinates import Latitude, Longitude
from mocpy import MOC
from regions import Region
from scipy.spatial import KDTree
from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint
from astropy import units as u
from astropy.coordinates import SkyCoord
from astropy.wcs import WCS
from regions import PixCoord, RectangleSkyRegion, SkyRegion



class ObsTable:
    @ref("table", attrs=("_table", "survey_values", "filters", "_wcs", "_detector_footprint", "_inv_colmap", "_colmap", "_kd_tree"), uninterp=("ObsTable._build_kd_tree", "ObsTable._assign_zero_points", "DetectorFootprint.__init__"), calls=("_build_kd_tree", "_assign_zero_points", "rename"))
    def __init__(self, table, *, colmap=None, detector_footprint=None, wcs=None, **kwargs):
        if isinstance(table, dict):
            self._table = pd.DataFrame(table)
        else:
            self._table = table.copy()
        name_map = {col: col for col in self._table.columns}
        self._inv_colmap = {}
        self._colmap = colmap if colmap is not None else {}
        if colmap is not None:
            for key, value in colmap.items():
                if value in name_map:
                    if key in self._table.columns and key != value:
                        raise ValueError
                    name_map[value] = key
                self._inv_colmap[value] = key
        self._table.rename(columns=name_map, inplace=True)
        for col in self._required_columns:
            if col not in self._table.columns:
                raise KeyError
        self.survey_values = self._default_survey_values.copy()
        if 'lightcurvelynx_survey_data' in self._table.attrs:
            metadata = self._table.attrs['lightcurvelynx_survey_data']
            if not isinstance(metadata, dict):
                raise TypeError
            for key, value in metadata.items():
                self.survey_values[key] = value
        for key, value in kwargs.items():
            self.survey_values[key] = value
        self.filters = np.unique(self._table['filter']) if 'filter' in self._table.columns else np.array([])
        if 'zp' not in self:
            self._assign_zero_points()
        self._kd_tree = None
        self._build_kd_tree()
        self._wcs = wcs
        if isinstance(detector_footprint, Region):
            pixel_scale = self.survey_values.get('pixel_scale', None)
            detector_footprint = DetectorFootprint(detector_footprint, wcs=wcs, pixel_scale=pixel_scale)
        self._detector_footprint = detector_footprint

    @ref("table")
    def __len__(self):
        return len(self._table)

    @ref("table")
    def __getitem__(self, key):
        if key in self._table.columns:
            return self._table[key]
        if key in self._inv_colmap and self._inv_colmap[key] in self._table.columns:
            return self._table[self._inv_colmap[key]]
        raise KeyError

    @ref("table")
    def __contains__(self, key):
        if key in self._table.columns:
            return True
        if key in self._inv_colmap and self._inv_colmap[key] in self._table.columns:
            return True
        return False

    @ref("table", attrs=("_detector_footprint",))
    def clear_detector_footprint(self):
        self._detector_footprint = None

    @ref("table", uninterp=("ObsTable.add_column",), calls=("add_column",))
    def _assign_constant_if_needed(self, colname, check_positive=True):
        if colname in self._table.columns:
            return True
        if self.survey_values.get(colname) is None:
            return False
        value = self.survey_values[colname]
        if isinstance(value, int | float):
            value = {fil: value for fil in self.filters}
        col_vals = np.zeros(len(self._table), dtype=float)
        for fil in self.filters:
            if fil not in value:
                raise ValueError
            if not isinstance(value[fil], int | float):
                raise ValueError
            if check_positive and value[fil] <= 0:
                raise ValueError
            mask = self._table['filter'] == fil
            col_vals[mask] = value[fil]
        self.add_column(colname, col_vals)
        return True

    @ref("table")
    def safe_get_survey_value(self, key):
        value = self.survey_values.get(key, None)
        if value is None:
            raise ValueError
        return value

    @ref("table")
    def radius(self):
        return self.survey_values.get('radius', None)

    @ref.setter("table", attrs=("survey_values",))
    def radius(self, new_val):
        if new_val <= 0:
            raise ValueError
        self.survey_values["radius"] = new_val

    @ref("table")
    def columns(self):
        return self._table.columns

    @ref("files", uninterp=("ObsTable.__init__",), calls=("close", "__init__"))
    def from_db(cls, filename, sql_query='SELECT * FROM observations', **kwargs):
        if not Path(filename).is_file():
            raise FileNotFoundError
        con = sqlite3.connect(f'file:{filename}?mode=ro', uri=True)
        try:
            survey_data = pd.read_sql_query(sql_query, con)
        except Exception:
            raise ValueError
        con.close()
        return cls(survey_data, **kwargs)

    @ref("files", uninterp=("ObsTable.__init__",), calls=("__init__",))
    def from_parquet(cls, filename):
        if not Path(filename).is_file():
            raise FileNotFoundError
        survey_data = pd.read_parquet(filename)
        return cls(survey_data)

    @ref("search")
    def build_moc(self, *, radius=None, max_depth=10):
        radius = radius if radius is not None else self.survey_values.get('radius', None)
        if radius is None:
            raise ValueError
        longitudes = Longitude(self._table['ra'].to_list(), unit='deg')
        latitudes = Latitude(self._table['dec'].to_list(), unit='deg')
        moc = MOC.from_cones(lon=longitudes, lat=latitudes, radius=radius * u.deg, max_depth=max_depth, delta_depth=0, union_strategy='large_cones')
        return moc

    @ref("index", attrs=("_kd_tree",))
    def _build_kd_tree(self):
        ra_rad = np.radians(self._table['ra'].to_numpy())
        dec_rad = np.radians(self._table['dec'].to_numpy())
        x = np.cos(dec_rad) * np.cos(ra_rad)
        y = np.cos(dec_rad) * np.sin(ra_rad)
        z = np.sin(dec_rad)
        cart_coords = np.array([x, y, z]).T
        self._kd_tree = KDTree(cart_coords)

    @ref("table")
    def _assign_zero_points(self):
        pass

    @ref("table", attrs=("_table",))
    def add_column(self, colname, values, *, overwrite=False):
        if colname in self._table.columns and (not overwrite):
            raise KeyError
        if np.isscalar(values):
            values = np.full(len(self._table), values)
        self._table[colname] = values

    @ref("files", calls=("to_sql", "close"))
    def write_db(self, filename, *, tablename='observations', overwrite=False):
        if_exists = 'replace' if overwrite else 'fail'
        con = sqlite3.connect(filename)
        try:
            self._table.to_sql(tablename, con, if_exists=if_exists)
        except Exception:
            raise ValueError
        con.close()

    @ref("files", calls=("to_parquet",))
    def write_parquet(self, filename, *, overwrite=False):
        if not overwrite and Path(filename).is_file():
            raise FileExistsError
        self._table.attrs['lightcurvelynx_survey_data'] = self.survey_values
        self._table.to_parquet(filename)

    @ref("search")
    def time_bounds(self):
        t_min = self._table['time'].min()
        t_max = self._table['time'].max()
        return (t_min, t_max)

    @ref("index", attrs=("_table", "filters"), uninterp=("ObsTable._build_kd_tree",), calls=("_build_kd_tree",))
    def filter_rows(self, rows):
        rows = np.asarray(rows)
        if rows.dtype == bool:
            if len(rows) != len(self._table):
                raise ValueError
            mask = rows
        else:
            mask = np.full((len(self._table),), False)
            mask[rows] = True
        self._table = self._table[mask]
        self.filters = np.unique(self._table['filter']) if 'filter' in self._table.columns else np.array([])
        self._kd_tree = None
        self._build_kd_tree()
        return self

    @ref("search", uninterp=("ObsTable.range_search",))
    def is_observed(self, query_ra, query_dec, *, radius=None, t_min=None, t_max=None):
        inds = self.range_search(query_ra, query_dec, radius=radius, t_min=t_min, t_max=t_max)
        if np.isscalar(query_ra):
            return len(inds) > 0
        return [len(entry) > 0 for entry in inds]

    @ref("search", uninterp=("DetectorFootprint.contains",))
    def range_search(self, query_ra, query_dec, *, radius=None, t_min=None, t_max=None):
        if query_ra is None or query_dec is None:
            raise ValueError
        radius = radius if radius is not None else self.survey_values.get('radius', None)
        if radius is None:
            raise ValueError
        is_scalar = np.isscalar(query_ra) and np.isscalar(query_dec)
        query_ra = np.atleast_1d(query_ra)
        query_dec = np.atleast_1d(query_dec)
        if len(query_ra) != len(query_dec):
            raise ValueError
        if np.any(query_ra == None) or np.any(query_dec == None):
            raise ValueError
        ra_rad = np.radians(query_ra)
        dec_rad = np.radians(query_dec)
        x = np.cos(dec_rad) * np.cos(ra_rad)
        y = np.cos(dec_rad) * np.sin(ra_rad)
        z = np.sin(dec_rad)
        cart_query = np.array([x, y, z]).T
        adjusted_radius = 2.0 * np.sin(0.5 * np.radians(radius))
        inds = self._kd_tree.query_ball_point(cart_query, adjusted_radius)
        if t_min is not None or t_max is not None:
            num_queries = len(query_ra)
            times = self._table['time'].to_numpy()
            if t_min is None:
                t_min = np.full(num_queries, -np.inf)
            else:
                t_min = np.full(num_queries, t_min) if np.isscalar(t_min) else np.atleast_1d(t_min)
            if len(t_min) != num_queries:
                raise ValueError
            if t_max is None:
                t_max = np.full(num_queries, np.inf)
            else:
                t_max = np.full(num_queries, t_max) if np.isscalar(t_max) else np.atleast_1d(t_max)
            if len(t_max) != num_queries:
                raise ValueError
            for idx, subinds in enumerate(inds):
                if len(subinds) == 0:
                    continue
                time_mask = (times[subinds] >= t_min[idx]) & (times[subinds] <= t_max[idx])
                inds[idx] = np.asarray(subinds)[time_mask]
        if self._detector_footprint is not None:
            all_ra = self._table['ra'].to_numpy()
            all_dec = self._table['dec'].to_numpy()
            all_rot = None if 'rotation' not in self._table.columns else self._table['rotation'].to_numpy()
            for idx, subinds in enumerate(inds):
                num_matches = len(subinds)
                if num_matches == 0:
                    continue
                match_rot = None if all_rot is None else all_rot[subinds]
                mask = self._detector_footprint.contains(np.full(num_matches, query_ra[idx]), np.full(num_matches, query_dec[idx]), all_ra[subinds], all_dec[subinds], rotation=match_rot)
                inds[idx] = np.asarray(subinds)[mask]
        if is_scalar:
            inds = inds[0]
        return inds

    @ref("search", uninterp=("ObsTable.range_search",))
    def get_observations(self, query_ra, query_dec, *, radius=None, t_min=None, t_max=None, cols=None):
        neighbors = self.range_search(query_ra, query_dec, radius=radius, t_min=t_min, t_max=t_max)
        results = {}
        if cols is None:
            cols = self._table.columns.to_list()
        elif isinstance(cols, str):
            cols = [cols]
        for col in cols:
            if col not in self:
                raise KeyError
            results[col] = self[col].iloc[neighbors].to_numpy()
        return results

    @ref("table")
    def bandflux_error_point_source(self, bandflux, index):
        raise NotImplementedError



class DetectorFootprint:
    @ref("footprint", attrs=("wcs", "region"))
    def __init__(self, region, wcs=None, pixel_scale=None, **kwargs):
        if wcs is None:
            if pixel_scale is None:
                raise ValueError
            if pixel_scale <= 0:
                raise ValueError
            wcs = WCS(naxis=2)
            wcs.wcs.ctype = ['RA---TAN', 'DEC--TAN']
            wcs.wcs.crval = [0.0, 0.0]
            wcs.wcs.crpix = [0.5, 0.5]
            wcs.wcs.cdelt = [pixel_scale, pixel_scale]
        self.wcs = wcs
        self.region = region
        if isinstance(self.region, SkyRegion):
            self.region = self.region.to_pixel(self.wcs)
        bbox = self.region.bounding_box
        if not (bbox.ixmin <= 0 <= bbox.ixmax and bbox.iymin <= 0 <= bbox.iymax):
            raise ValueError

    @ref("footprint", uninterp=("DetectorFootprint.__init__",), calls=("__init__",))
    def from_rect(cls, width, height, wcs=None, pixel_scale=None, **kwargs):
        center = SkyCoord(ra=0.0, dec=0.0, unit='deg', frame='icrs')
        region = RectangleSkyRegion(center=center, width=width * u.deg, height=height * u.deg, angle=0.0 * u.deg, **kwargs)
        return cls(region, wcs=wcs, pixel_scale=pixel_scale)

    @ref("footprint")
    def rotate_to_center(ra, dec, center_ra, center_dec, *, rotation=None):
        if rotation is None:
            rotation = np.zeros_like(ra)
        target = SkyCoord(ra=ra * u.deg, dec=dec * u.deg, frame='icrs')
        origin = SkyCoord(ra=center_ra * u.deg, dec=center_dec * u.deg, frame='icrs')
        offset_frame = origin.skyoffset_frame(rotation=rotation * u.deg)
        offset = target.transform_to(offset_frame)
        lon_t = offset.lon.deg
        lon_t[lon_t > 180.0] -= 360.0
        lat_t = offset.lat.deg
        lat_t[lat_t > 90.0] -= 180.0
        return (lon_t, lat_t)

    @ref("footprint", uninterp=("DetectorFootprint.rotate_to_center",))
    def sky_to_pixel(self, ra, dec, center_ra, center_dec, *, rotation=None):
        lon_t, lat_t = self.rotate_to_center(ra, dec, center_ra, center_dec, rotation=rotation)
        sky_pts = SkyCoord(lon_t, lat_t, unit='deg')
        pixel_x, pixel_y = self.wcs.world_to_pixel(sky_pts)
        return (pixel_x, pixel_y)

    @ref("footprint", uninterp=("DetectorFootprint.sky_to_pixel",))
    def contains(self, ra, dec, center_ra, center_dec, *, rotation=None):
        scalar_data = np.isscalar(ra)
        ra = np.atleast_1d(ra)
        dec = np.atleast_1d(dec)
        if ra.shape != dec.shape:
            raise ValueError
        center_ra = np.atleast_1d(center_ra)
        center_dec = np.atleast_1d(center_dec)
        if center_ra.shape != ra.shape:
            if center_ra.shape != (1,):
                raise ValueError
            else:
                center_ra = np.full(ra.shape, center_ra[0])
        if center_dec.shape != dec.shape:
            if center_dec.shape != (1,):
                raise ValueError
            else:
                center_dec = np.full(dec.shape, center_dec[0])
        if rotation is not None:
            rotation = np.atleast_1d(rotation)
            if rotation.shape != ra.shape:
                if rotation.shape != (1,):
                    raise ValueError
                else:
                    rotation = np.full(ra.shape, rotation[0])
        pixel_x, pixel_y = self.sky_to_pixel(ra, dec, center_ra, center_dec, rotation=rotation)
        pix_coord = PixCoord(x=pixel_x, y=pixel_y)
        result = self.region.contains(pix_coord)
        if scalar_data:
            return result[0]
        return result
