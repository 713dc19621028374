import numpy as np
import pandas as pd
from astropy.table import Table
from lightcurvelynx.base_models import FunctionNode
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc


class BinarySampler:
    @ref('draws', attrs=('probability',), uninterp=('NumpyRandomFunc.__init__',), calls=('__init__',))
    def __init__(self, probability, seed=None, **kwargs):
        if probability < 0 or probability > 1:
            raise ValueError
        self.probability = probability
        super().__init__('uniform', seed=seed, **kwargs)

    @ref('draws', uninterp=('_save_results',), calls=('_save_results',))
    def compute(self, graph_state, rng_info=None, **kwargs):
        rng = rng_info if rng_info is not None else self._rng
        if graph_state.num_samples == 1:
            results = rng.random() < self.probability
        else:
            results = rng.random(graph_state.num_samples) < self.probability
        self._save_results(results, graph_state)
        return results



class GivenValueList:
    @ref('given', attrs=('values','next_ind'), uninterp=('FunctionNode.__init__',), calls=('__init__',))
    def __init__(self, values, **kwargs):
        self.values = np.asarray(values)
        if len(values) == 0:
            raise ValueError
        self.next_ind = 0
        super().__init__(self._non_func, **kwargs)

    @ref('given', attrs=('next_ind',))
    def reset(self):
        self.next_ind = 0

    @ref('given', attrs=('next_ind',), uninterp=('_save_results',), calls=('_save_results',))
    def compute(self, graph_state, rng_info=None, **kwargs):
        if graph_state.num_samples == 1:
            if self.next_ind >= len(self.values):
                raise IndexError
            results = self.values[self.next_ind]
            self.next_ind += 1
        else:
            end_ind = self.next_ind + graph_state.num_samples
            if end_ind > len(self.values):
                raise IndexError
            results = self.values[self.next_ind:end_ind]
            self.next_ind = end_ind
        self._save_results(results, graph_state)
        return results



class GivenValueSampler:
    @ref('given', attrs=('values','_num_values','_weights'), uninterp=('NumpyRandomFunc.__init__',), calls=('__init__',))
    def __init__(self, values, weights=None, seed=None, **kwargs):
        if isinstance(values, int):
            values = np.arange(values)
        self.values = np.asarray(values)
        self._num_values = len(values)
        if self._num_values == 0:
            raise ValueError
        if weights is not None:
            self._weights = np.asarray(weights)
            if len(self._weights) != self._num_values:
                raise ValueError
            self._weights = self._weights / np.sum(self._weights)
        else:
            self._weights = None
        super().__init__('uniform', seed=seed, **kwargs)

    @ref('given', uninterp=('_save_results',), calls=('_save_results',))
    def compute(self, graph_state, rng_info=None, **kwargs):
        rng = rng_info if rng_info is not None else self._rng
        if graph_state.num_samples == 1:
            inds = rng.choice(self._num_values, p=self._weights)
        else:
            inds = rng.choice(self._num_values, size=graph_state.num_samples, p=self._weights)
        results = self.values[inds]
        self._save_results(results, graph_state)
        return results



class GivenValueSelector:
    @ref('given', attrs=('values',), uninterp=('FunctionNode.__init__',), calls=('__init__',))
    def __init__(self, values, index, **kwargs):
        super().__init__(self._select, index=index, **kwargs)
        self.values = np.asarray(values)
        if len(values) == 0:
            raise ValueError

    @ref('given')
    def _select(self, index):
        if np.any(index < 0) or np.any(index >= len(self.values)):
            raise IndexError
        return self.values[index]



class TableSampler:
    @ref('given', attrs=('next_ind','in_order','data','_num_values'), uninterp=('NumpyRandomFunc.__init__',), calls=('__init__',))
    def __init__(self, data, in_order=False, **kwargs):
        self.next_ind = 0
        self.in_order = in_order
        if isinstance(data, dict):
            self.data = Table(data)
        elif isinstance(data, Table):
            self.data = data.copy()
        elif isinstance(data, pd.DataFrame):
            self.data = Table.from_pandas(data)
        else:
            raise TypeError
        self._num_values = len(self.data)
        if self._num_values == 0:
            raise ValueError
        super().__init__('uniform', outputs=self.data.colnames, **kwargs)

    @ref('given', attrs=('next_ind',))
    def reset(self):
        self.next_ind = 0

    @ref('given', attrs=('next_ind',), uninterp=('_save_results',), calls=('_save_results',))
    def compute(self, graph_state, rng_info=None, **kwargs):
        if self.in_order:
            end_index = self.next_ind + graph_state.num_samples
            if end_index > len(self.data):
                raise IndexError
            sample_inds = np.arange(self.next_ind, end_index)
            self.next_ind = end_index
        else:
            rng = rng_info if rng_info is not None else self._rng
            sample_inds = rng.integers(0, self._num_values, size=graph_state.num_samples)
        results = []
        for attr_name in self.outputs:
            attr_values = np.asarray(self.data[attr_name][sample_inds])
            if graph_state.num_samples == 1:
                results.append(attr_values[0])
            else:
                results.append(attr_values)
        self._save_results(results, graph_state)
        return results

from os import urandom
import numpy as np
from lightcurvelynx.base_models import FunctionNode


class NumpyRandomFunc:
    @ref('draws', attrs=('func_name','sample_size','_rng'), uninterp=('FunctionNode.__init__',), calls=('__init__',))
    def __init__(self, func_name, size=1, seed=None, **kwargs):
        self.func_name = func_name
        if func_name == 'choice':
            raise ValueError
        if size is None or size == 1:
            self.sample_size = ()
        else:
            if np.isscalar(size):
                size = (size,)
            if np.any(np.array(size) <= 0):
                raise ValueError
            self.sample_size = size
        if seed is None:
            seed = int.from_bytes(urandom(4), 'big')
        self._rng = np.random.default_rng(seed=seed)
        if not hasattr(self._rng, func_name):
            raise ValueError
        func = getattr(self._rng, func_name)
        super().__init__(func, **kwargs)

    @ref('draws', attrs=('_rng','func'))
    def set_seed(self, new_seed):
        self._rng = np.random.default_rng(seed=new_seed)
        self.func = getattr(self._rng, self.func_name)

    @ref('draws', uninterp=('_save_results','_build_inputs'), calls=('_save_results',))
    def compute(self, graph_state, rng_info=None, **kwargs):
        args = self._build_inputs(graph_state, **kwargs)
        func = self.func if rng_info is None else getattr(rng_info, self.func_name)
        size_param = (graph_state.num_samples, *self.sample_size)
        if graph_state.num_samples > 1 and len(self.sample_size) > 0:
            per_sample = (-1, *[1] * len(self.sample_size))
            args = {key: np.reshape(val, per_sample) if np.shape(val) == (graph_state.num_samples,) else val for key, val in args.items()}
        if size_param == (1,):
            size_param = None
        results = func(**args, size=size_param)
        self._save_results(results, graph_state)
        return results

from os import urandom
import numpy as np
from scipy.integrate import cumulative_trapezoid
from scipy.interpolate import interp1d
from lightcurvelynx.base_models import FunctionNode


class DistributionSampler:
    @ref('draws', attrs=('_rng','_inv_cdf'), uninterp=('FunctionNode.__init__',), calls=('__init__',))
    def __init__(self, x, y, kind='linear', seed=None, **kwargs):
        super().__init__(self._non_func, **kwargs)
        if seed is None:
            seed = int.from_bytes(urandom(4), 'big')
        self._rng = np.random.default_rng(seed=seed)
        if len(x) != len(y):
            raise ValueError
        if np.any(y < 0):
            raise ValueError
        cdf_samples = cumulative_trapezoid(y, x, initial=0.0)
        cdf_samples /= cdf_samples[-1]
        self._inv_cdf = interp1d(cdf_samples, x, kind=kind, fill_value=0.0)

    @ref('draws', attrs=('_rng',))
    def set_seed(self, new_seed):
        self._rng = np.random.default_rng(seed=new_seed)

    @ref('draws', uninterp=('_save_results',), calls=('_save_results',))
    def compute(self, graph_state, rng_info=None, **kwargs):
        num_samples = None if graph_state.num_samples == 1 else graph_state.num_samples
        rng = rng_info if rng_info is not None else self._rng
        cdf_points = rng.random(num_samples)
        x_samples = self._inv_cdf(cdf_points)
        self._save_results(x_samples, graph_state)
        return x_samples

from pathlib import Path
import numpy as np
from cdshealpix.nested import healpix_to_skycoord
from citation_compass import CiteClass
from mocpy import MOC
from lightcurvelynx.math_nodes.given_sampler import TableSampler
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc


class UniformRADEC:
    @ref('positions', attrs=('use_degrees',), uninterp=('NumpyRandomFunc.__init__',), calls=('__init__',))
    def __init__(self, outputs=None, seed=None, use_degrees=True, **kwargs):
        self.use_degrees = use_degrees
        func_name = 'uniform'
        outputs = ['ra', 'dec']
        super().__init__(func_name, outputs=outputs, seed=seed, **kwargs)

    @ref('positions', calls=('set',))
    def compute(self, graph_state, rng_info=None, **kwargs):
        rng = rng_info if rng_info is not None else self._rng
        ra = rng.uniform(0.0, 2.0 * np.pi, size=graph_state.num_samples)
        dec = np.arcsin(rng.uniform(-1.0, 1.0, size=graph_state.num_samples))
        if self.use_degrees:
            ra = np.degrees(ra)
            dec = np.degrees(dec)
        if graph_state.num_samples == 1:
            ra = ra[0]
            dec = dec[0]
        graph_state.set(self.node_string, 'ra', ra)
        graph_state.set(self.node_string, 'dec', dec)
        return [ra, dec]



class ObsTableRADECSampler:
    @ref('positions', attrs=('radius',), uninterp=('TableSampler.__init__',), calls=('__init__',))
    def __init__(self, data, radius=None, in_order=False, **kwargs):
        if radius is None:
            radius = data.survey_values.get('radius', None)
            if radius is None:
                raise ValueError
        if radius < 0.0:
            raise ValueError
        self.radius = radius
        data_dict = {'ra': data['ra'], 'dec': data['dec'], 'time': data['time']}
        super().__init__(data_dict, in_order=in_order, **kwargs)

    @ref('positions', uninterp=('_save_results','TableSampler.compute'), calls=('_save_results',))
    def compute(self, graph_state, rng_info=None, **kwargs):
        results = super().compute(graph_state, rng_info=rng_info, **kwargs)
        if self.radius > 0.0:
            rng = rng_info if rng_info is not None else self._rng
            size = None if graph_state.num_samples == 1 else graph_state.num_samples
            offset_amt = self.radius * np.sqrt(rng.uniform(0.0, 1.0, size=size))
            offset_ang = 2.0 * np.pi * rng.uniform(0.0, 1.0, size=size)
            results[0] += offset_amt * np.cos(offset_ang)
            results[1] += offset_amt * np.sin(offset_ang)
            self._save_results(results, graph_state)
        return results



class ObsTableUniformRADECSampler:
    @ref('positions', attrs=('radius','data','max_iterations'), uninterp=('NumpyRandomFunc.__init__',), calls=('__init__',))
    def __init__(self, data, *, radius=None, outputs=None, seed=None, max_iterations=1000, **kwargs):
        if radius is None:
            radius = data.survey_values.get('radius', None)
            if radius is None:
                raise ValueError
        if radius <= 0.0:
            raise ValueError
        self.radius = radius
        if len(data) == 0:
            raise ValueError
        self.data = data
        if max_iterations <= 0:
            raise ValueError
        self.max_iterations = max_iterations
        func_name = 'uniform'
        outputs = ['ra', 'dec']
        super().__init__(func_name, outputs=outputs, seed=seed, **kwargs)

    @ref('positions', calls=('set',))
    def compute(self, graph_state, rng_info=None, **kwargs):
        rng = rng_info if rng_info is not None else self._rng
        ra = np.zeros(graph_state.num_samples)
        dec = np.zeros(graph_state.num_samples)
        mask = np.full(graph_state.num_samples, False)
        num_missing = graph_state.num_samples
        iter_num = 1
        while num_missing > 0 and iter_num <= self.max_iterations:
            ra[~mask] = np.degrees(rng.uniform(0.0, 2.0 * np.pi, size=num_missing))
            dec[~mask] = np.degrees(np.arcsin(rng.uniform(-1.0, 1.0, size=num_missing)))
            mask = np.asarray(self.data.is_observed(ra, dec, radius=self.radius))
            num_missing = np.sum(~mask)
            iter_num += 1
        if graph_state.num_samples == 1:
            ra = ra[0]
            dec = dec[0]
        graph_state.set(self.node_string, 'ra', ra)
        graph_state.set(self.node_string, 'dec', dec)
        return (ra, dec)



class ApproximateMOCSampler:
    @ref('positions', attrs=('depth','healpix_list'), uninterp=('NumpyRandomFunc.__init__',), calls=('__init__',))
    def __init__(self, moc, *, outputs=None, seed=None, depth=12, **kwargs):
        if depth < 2 or depth > 29:
            raise ValueError
        self.depth = depth
        self.healpix_list = moc.to_order(depth).flatten()
        func_name = 'uniform'
        outputs = ['ra', 'dec']
        super().__init__(func_name, outputs=outputs, seed=seed, **kwargs)

    @ref('positions', uninterp=('ApproximateMOCSampler.__init__',), calls=('__init__',))
    def from_file(cls, filename, format='fits', **kwargs):
        filename = Path(filename)
        if not filename.is_file():
            raise FileNotFoundError
        moc = MOC.load(filename, format=format)
        return cls(moc, **kwargs)

    @ref('positions', calls=('set',))
    def compute(self, graph_state, rng_info=None, **kwargs):
        rng = rng_info if rng_info is not None else self._rng
        pixel_ids = rng.choice(self.healpix_list, size=graph_state.num_samples).astype(np.uint64)
        start_pixel_ids29 = np.left_shift(pixel_ids, 2 * (29 - self.depth))
        offset_range = np.uint64(1) << np.uint64(2 * (29 - self.depth))
        pixel_ids29 = start_pixel_ids29 + rng.integers(offset_range, size=graph_state.num_samples, dtype=np.uint64)
        coords = healpix_to_skycoord(pixel_ids29, depth=29)
        ra = coords.ra.deg
        dec = coords.dec.deg
        if graph_state.num_samples == 1:
            ra = ra[0]
            dec = dec[0]
        graph_state.set(self.node_string, 'ra', ra)
        graph_state.set(self.node_string, 'dec', dec)
        return (ra, dec)

from os import urandom
import numpy as np
from scipy.stats.sampling import NumericalInversePolynomial
from lightcurvelynx.base_models import FunctionNode
from lightcurvelynx.graph_state import transpose_dict_of_list


class NumericalInversePolynomialFunc:
    @ref('draws', attrs=('_dist','_inv_poly','_vect_sample','_rng'), uninterp=('FunctionNode.__init__',), calls=('__init__',))
    def __init__(self, dist=None, seed=None, **kwargs):
        if not hasattr(dist, 'pdf') and (not hasattr(dist, 'logpdf')):
            raise ValueError
        self._dist = dist
        if isinstance(dist, type):
            self._inv_poly = None
            self._vect_sample = np.vectorize(self._create_and_sample)
        else:
            self._inv_poly = NumericalInversePolynomial(self._dist)
            self._vect_sample = None
        if seed is None:
            seed = int.from_bytes(urandom(4), 'big')
        self._rng = np.random.default_rng(seed=seed)
        super().__init__(self._rvs, **kwargs)

    @ref('draws', attrs=('_rng',))
    def set_seed(self, new_seed):
        self._rng = np.random.default_rng(seed=new_seed)

    @ref('draws')
    def _create_and_sample(self, args, rng):
        dist = self._dist(**args)
        sample = NumericalInversePolynomial(dist).rvs(1, rng)[0]
        return sample

    @ref('draws', uninterp=('_save_results','_build_inputs','transpose_dict_of_list'), calls=('_save_results',))
    def compute(self, graph_state, rng_info=None, **kwargs):
        rng = rng_info if rng_info is not None else self._rng
        if self._inv_poly is not None:
            num_samples = None if graph_state.num_samples == 1 else graph_state.num_samples
            results = self._inv_poly.rvs(num_samples, rng)
        else:
            args = self._build_inputs(graph_state, **kwargs)
            if graph_state.num_samples == 1:
                dist = self._dist(**args)
                results = NumericalInversePolynomial(dist).rvs(1, rng)[0]
            else:
                arg_list = transpose_dict_of_list(args, graph_state.num_samples)
                results = self._vect_sample(arg_list, rng)
        self._save_results(results, graph_state)
        return results



class PDFFunctionWrapper:
    @ref('draws', attrs=('pdf',))
    def __init__(self, func):
        self._pdf = func
        self.pdf = self._pdf



class SamplePDF:
    @ref('draws', uninterp=('NumericalInversePolynomialFunc.__init__','PDFFunctionWrapper.__init__'), calls=('__init__',))
    def __init__(self, dist, **kwargs):
        if hasattr(dist, 'pdf'):
            self.dist_obj = dist
        elif callable(dist):
            self.dist_obj = PDFFunctionWrapper(dist)
        else:
            raise ValueError
        super().__init__(self.dist_obj, **kwargs)



class LogPDFFunctionWrapper:
    @ref('draws', attrs=('logpdf',))
    def __init__(self, func):
        self._log_pdf = func
        self.logpdf = self._log_pdf



class SampleLogPDF:
    @ref('draws', uninterp=('NumericalInversePolynomialFunc.__init__','LogPDFFunctionWrapper.__init__'), calls=('__init__',))
    def __init__(self, dist, **kwargs):
        if hasattr(dist, 'logpdf'):
            self.dist_obj = dist
        elif callable(dist):
            self.dist_obj = LogPDFFunctionWrapper(dist)
        else:
            raise ValueError
        super().__init__(self.dist_obj, **kwargs)

from citation_compass import CiteClass
from lightcurvelynx.base_models import FunctionNode


class BilbyPriorNode:
    @ref('draws', attrs=('prior',), uninterp=('FunctionNode.__init__','set_seed'), calls=('__init__','set_seed'))
    def __init__(self, prior, seed=None, **kwargs):
        if seed is not None:
            self.set_seed(seed)
        if isinstance(prior, dict):
            try:
                from bilby.core.prior import PriorDict
            except ImportError as err:
                raise ImportError
            prior = PriorDict(prior)
        if len(prior) == 0:
            raise ValueError
        self.prior = prior
        outputs = [param for param in prior]
        super().__init__(self._non_func, outputs=outputs, **kwargs)

    @ref('draws', calls=('bilby.core.utils.random.seed',))
    def set_seed(self, new_seed):
        try:
            from bilby.core.utils import random as bibly_random
        except ImportError as err:
            raise ImportError
        bibly_random.seed(new_seed)

    @ref('draws', calls=('set',))
    def compute(self, graph_state, rng_info=None, **kwargs):
        param_dict = self.prior.sample(graph_state.num_samples)
        results = []
        for key in self.outputs:
            values = param_dict[key]
            if graph_state.num_samples == 1:
                values = values[0]
            graph_state.set(self.node_string, key, values)
            results.append(values)
        return results

import ast
import math
import jax.numpy as jnp
import numpy as np
from lightcurvelynx.base_models import FunctionNode


class BasicMathNode:
    @ref('math', attrs=('backend','expression'), uninterp=('_prepare','FunctionNode.__init__'), calls=('_prepare','__init__'))
    def __init__(self, expression, backend='numpy', node_label=None, **kwargs):
        if backend not in ['jax', 'math', 'numpy']:
            raise ValueError
        self.backend = backend
        self.expression = expression
        self._prepare(**kwargs)
    
        def eval_func(**kwargs):
            params = self.prepare_params(**kwargs)
            try:
                return eval(self.expression, globals(), params)
            except Exception as problem:
                new_message = f"Error during math operation '{self.expression}' with args={kwargs}"
                raise type(problem)
        super().__init__(eval_func, node_label=node_label, **kwargs)

    @ref('math', uninterp=('prepare_params',))
    def eval(self, **kwargs):
        params = self.prepare_params(**kwargs)
        return eval(self.expression, globals(), params)

    @ref('math')
    def list_functions():
        return list(BasicMathNode._math_map.keys())

    @ref('math', calls=('jax.numpy.array',))
    def prepare_params(self, **kwargs):
        params = {}
        for name, value in kwargs.items():
            if self.backend == 'numpy':
                params[name] = np.array(value)
            elif self.backend == 'jax':
                params[name] = jnp.array(value)
            else:
                params[name] = value
        return params

    @ref('math', attrs=('expression',), calls=('=id',))
    def _prepare(self, **kwargs):
        tree = ast.parse(self.expression)
        for node in ast.walk(tree):
            if isinstance(node, self._supported_ast_nodes):
                continue
            elif isinstance(node, ast.Call):
                if not isinstance(node.func, ast.Name) or node.func.id not in self._math_map:
                    raise ValueError
            elif isinstance(node, ast.Name):
                if node.id in kwargs:
                    continue
                elif node.id in self._math_map:
                    if self.backend == 'math':
                        node.id = self._math_map[node.id][0]
                    elif self.backend == 'numpy':
                        node.id = self._math_map[node.id][1]
                    elif self.backend == 'jax':
                        node.id = self._math_map[node.id][2]
                else:
                    raise ValueError
            else:
                raise ValueError
        self.expression = ast.unparse(tree)

import numpy as np
import pandas as pd
from citation_compass import CiteClass
from lightcurvelynx.base_models import FunctionNode


class PZFlowNode:
    @ref('draws', attrs=('flow','columns','conditional_cols'), uninterp=('FunctionNode.__init__',), calls=('__init__',))
    def __init__(self, flow_obj, node_label=None, **kwargs):
        self.flow = flow_obj
        self.columns = [x for x in flow_obj.data_columns]
        if flow_obj.conditional_columns is not None and len(flow_obj.conditional_columns) > 0:
            self.conditional_cols = []
            for col in flow_obj.conditional_columns:
                if col not in kwargs:
                    raise ValueError
                self.conditional_cols.append(col)
        else:
            self.conditional_cols = None
        super().__init__(self._non_func, node_label=node_label, outputs=self.columns, **kwargs)

    @ref('draws', uninterp=('PZFlowNode.__init__',), calls=('__init__',))
    def from_file(cls, filename, node_label=None, **kwargs):
        try:
            from pzflow import Flow
        except ImportError as err:
            raise ImportError
        flow_to_use = Flow(file=filename)
        return PZFlowNode(flow_to_use, node_label=node_label, **kwargs)

    @ref('draws', uninterp=('_save_results','get_local_params'), calls=('_save_results',))
    def compute(self, graph_state, rng_info=None, **kwargs):
        seed = None if rng_info is None else int.from_bytes(rng_info.bytes(4), byteorder='big')
        if self.conditional_cols is not None and len(self.conditional_cols) > 0:
            all_params = self.get_local_params(graph_state)
            input_params = {}
            for col in self.conditional_cols:
                input_params[col] = np.atleast_1d(all_params[col])
            input_df = pd.DataFrame(input_params)
            samples = self.flow.sample(1, conditions=input_df, seed=seed)
        else:
            samples = self.flow.sample(graph_state.num_samples, seed=seed)
        results = []
        for attr_name in self.flow.data_columns:
            attr_values = samples[attr_name].values
            if graph_state.num_samples == 1:
                results.append(attr_values[0])
            else:
                results.append(np.array(attr_values))
        if len(self.flow.data_columns) == 1:
            results = results[0]
        self._save_results(results, graph_state)
        return results

