from functools import partial
import numpy as np
from lightcurvelynx.graph_state import DependencyGraph, GraphState


class ParameterSource:
    @ref('source', attrs=('parameter_name', 'node_name', 'source_type', 'allow_gradient', 'value', 'dependency'))
    def __init__(self, parameter_name, source_type=0, node_name=''):
        self.parameter_name = parameter_name
        self.node_name = node_name
        self.source_type = source_type
        self.allow_gradient = False
        self.value = None
        self.dependency = None

    @ref('source', attrs=('parameter_name', 'node_name', 'source_type', 'allow_gradient', 'value', 'dependency'))
    def set_as_constant(self, value, allow_gradient=True):
        if callable(value):
            raise ValueError
        self.source_type = ParameterSource.CONSTANT
        self.allow_gradient = allow_gradient
        self.dependency = None
        self.value = value

    @ref('source', attrs=('parameter_name', 'node_name', 'source_type', 'allow_gradient', 'value', 'dependency'))
    def set_as_parameter(self, dependency, param_name):
        self.source_type = ParameterSource.MODEL_PARAMETER
        self.allow_gradient = False
        self.dependency = dependency
        self.value = param_name

    @ref('source', attrs=('parameter_name', 'node_name', 'source_type', 'allow_gradient', 'value', 'dependency'))
    def set_as_function(self, dependency, param_name='function_node_result'):
        self.source_type = ParameterSource.FUNCTION_NODE
        self.allow_gradient = False
        self.dependency = dependency
        self.value = param_name

    @ref('source', attrs=('parameter_name', 'node_name', 'source_type', 'allow_gradient', 'value', 'dependency'))
    def set_as_compute_output(self, param_name='function_node_result'):
        self.source_type = ParameterSource.COMPUTE_OUTPUT
        self.allow_gradient = False
        self.value = param_name



class ParameterizedNode:
    @ref('nodes', attrs=('setters', 'node_label', 'node_pos'), uninterp=('_update_node_string',), calls=('_update_node_string',))
    def __init__(self, node_label=None, **kwargs):
        self.setters = {}
        self.node_label = node_label
        self.node_pos = None
        self.node_string = None
        self._update_node_string()

    @ref('nodes')
    def __str__(self):
        return self.node_string

    @ref('nodes', attrs=('node_string',), calls=('=node_name',))
    def _update_node_string(self, new_str=None):
        if self.node_label is not None:
            self.node_string = self.node_label
        elif new_str is not None:
            self.node_string = new_str
        else:
            pos_string = f'_{self.node_pos}' if self.node_pos is not None else ''
            self.node_string = f'{self.__class__.__name__}{pos_string}'
        for _, setter_info in self.setters.items():
            setter_info.node_name = self.node_string

    @ref('nodes', attrs=('node_pos',), uninterp=('_update_node_string',), calls=('_update_node_string', 'set_graph_positions', 'add'))
    def set_graph_positions(self, seen_nodes=None):
        if seen_nodes is None:
            seen_nodes = set()
        if self in seen_nodes:
            return
        seen_nodes.add(self)
        self.node_pos = len(seen_nodes) - 1
        self._update_node_string()
        for setter_info in self.setters.values():
            if setter_info.dependency is not None and setter_info.dependency is not self:
                setter_info.dependency.set_graph_positions(seen_nodes)

    @ref('nodes')
    def list_params(self):
        return list(self.setters.keys())

    @ref('nodes')
    def has_valid_param(self, name):
        if name not in self.setters:
            return False
        setter = self.setters[name]
        return not (setter.source_type == ParameterSource.CONSTANT and setter.value is None)

    @ref('nodes')
    def get_param(self, graph_state, name, default=None):
        if graph_state is None:
            raise ValueError
        if self.node_string in graph_state and name in graph_state[self.node_string]:
            return graph_state[self.node_string][name]
        return default

    @ref('nodes')
    def get_local_params(self, graph_state):
        if graph_state is None:
            raise ValueError
        return graph_state[self.node_string]

    @ref('source', attrs=('node_pos',), uninterp=('ParameterSource.set_as_constant', 'ParameterSource.set_as_parameter', 'ParameterSource.set_as_function', 'ParameterSource.set_as_compute_output', 'FunctionNode.__init__'), calls=('set_as_constant', 'set_as_parameter', 'set_as_function'))
    def set_parameter(self, name, value=None, **kwargs):
        self.node_pos = None
        if name not in self.setters:
            raise KeyError
        if value is None and name in kwargs:
            value = kwargs[name]
        if callable(value):
            if '__self__' in value.__dir__() and isinstance(value.__self__, ParameterizedNode):
                method_name = value.__name__
                parent = value.__self__
                if method_name in parent.setters:
                    self.setters[name].set_as_parameter(parent, method_name)
                else:
                    raise ValueError
            else:
                func_node = FunctionNode(value, **kwargs)
                self.setters[name].set_as_function(func_node)
        elif isinstance(value, FunctionNode):
            output_name = name if name in value.outputs else 'function_node_result'
            self.setters[name].set_as_function(value, output_name)
        elif isinstance(value, ParameterizedNode):
            if value == self:
                raise ValueError
            if name not in value.setters:
                raise ValueError
            self.setters[name].set_as_parameter(value, name)
        else:
            self.setters[name].set_as_constant(value)

    @ref('source', calls=('=allow_gradient',))
    def set_allow_gradient(self, name, allow_gradient):
        self.setters[name].allow_gradient = allow_gradient

    @ref('source', uninterp=('ParameterizedNode.set_parameter', 'ParameterSource.__init__'), calls=('set_parameter', '=allow_gradient', '[]=', '=<dynamic>'))
    def add_parameter(self, name, value=None, allow_gradient=None, **kwargs):
        if hasattr(self, name) and name not in self.setters:
            raise KeyError
        if self.setters.get(name, None) is not None:
            raise KeyError
        self.setters[name] = ParameterSource(parameter_name=name, source_type=ParameterSource.UNDEFINED, node_name=str(self))
        self.set_parameter(name, value, **kwargs)
        if allow_gradient is not None:
            self.setters[name].allow_gradient = allow_gradient
    
        def getter(graph_state):
            return graph_state[getter.__self__.node_string][getter.__name__]
        getter.__self__ = self
        getter.__name__ = name
        setattr(self, name, getter)

    @ref('sampling', uninterp=('FunctionNode.compute', 'ParameterizedNode.compute'), calls=('_sample_helper', 'set', 'compute', '[]='))
    def _sample_helper(self, graph_state, seen_nodes, rng_info=None):
        node_str = str(self)
        if node_str in seen_nodes:
            if seen_nodes[node_str] != self:
                raise ValueError
            return
        seen_nodes[node_str] = self
        any_compute = False
        for name, setter in self.setters.items():
            if setter.dependency is not None and setter.dependency != self:
                setter.dependency._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
            if setter.source_type == ParameterSource.CONSTANT:
                if graph_state.num_samples == 1:
                    graph_state.set(self.node_string, name, setter.value)
                else:
                    repeated_value = np.array([setter.value] * graph_state.num_samples)
                    graph_state.set(self.node_string, name, repeated_value)
            elif setter.source_type == ParameterSource.MODEL_PARAMETER:
                graph_state.set(self.node_string, name, graph_state[setter.dependency.node_string][setter.value])
            elif setter.source_type == ParameterSource.FUNCTION_NODE:
                graph_state.set(self.node_string, name, graph_state[setter.dependency.node_string][setter.value])
            elif setter.source_type == ParameterSource.COMPUTE_OUTPUT:
                any_compute = True
            else:
                raise ValueError
        if any_compute:
            self.compute(graph_state, rng_info)

    @ref('sampling', uninterp=('_sample_helper', 'ParameterizedNode.set_graph_positions', 'GraphState.__init__', 'GraphState.update'), calls=('set_graph_positions', 'update', '_sample_helper'))
    def sample_parameters(self, given_args=None, num_samples=1, rng_info=None):
        if self.node_pos is None:
            nodes = set()
            self.set_graph_positions(seen_nodes=nodes)
        results = GraphState(num_samples)
        if given_args is not None:
            results.update(given_args, all_fixed=True)
        seen_nodes = {}
        self._sample_helper(results, seen_nodes, rng_info=rng_info)
        return results

    @ref('structure', calls=('add_parameter', '_dependency_graph_helper', 'add_constant', 'add_edge'))
    def _dependency_graph_helper(self, dependency_graph):
        node_name = str(self)
        if node_name in dependency_graph.all_nodes:
            return
        for param_name, setter in self.setters.items():
            full_name = GraphState.extended_param_name(node_name, param_name)
            dependency_graph.add_parameter(param_name, node_name)
            dep_name = None
            if setter.dependency is not None and setter.dependency != self:
                dep_name = GraphState.extended_param_name(setter.dependency.node_string, setter.value)
                setter.dependency._dependency_graph_helper(dependency_graph)
            elif setter.source_type == ParameterSource.CONSTANT:
                dep_name = dependency_graph.add_constant(setter.value)
            if dep_name is not None:
                dependency_graph.add_edge(dep_name, full_name)

    @ref('structure', uninterp=('_dependency_graph_helper', 'ParameterizedNode.set_graph_positions'), calls=('_dependency_graph_helper', 'set_graph_positions'))
    def build_dependency_graph(self):
        if self.node_pos is None:
            nodes = set()
            self.set_graph_positions(seen_nodes=nodes)
        dependency_graph = DependencyGraph()
        self._dependency_graph_helper(dependency_graph)
        return dependency_graph

    @ref('structure', calls=('build_pytree', '[]='))
    def build_pytree(self, graph_state, partial=None):
        if self.node_pos is None:
            raise ValueError
        if partial is None:
            partial = {}
        if self.node_string in partial:
            return partial
        partial[self.node_string] = {}
        for name, setter_info in self.setters.items():
            if setter_info.allow_gradient:
                partial[self.node_string][name] = graph_state[self.node_string][name]
            elif setter_info.dependency is not None:
                partial = setter_info.dependency.build_pytree(graph_state, partial)
        return partial



class FunctionNode:
    @ref('function nodes', attrs=('func', 'arg_names', 'outputs'), uninterp=('ParameterizedNode.__init__', 'ParameterizedNode.add_parameter'), calls=('__init__', 'add_parameter', 'set_as_compute_output'))
    def __init__(self, func, node_label=None, outputs=None, fixed_params=None, **kwargs):
        if fixed_params is not None and len(fixed_params) > 0:
            self.func = partial(func, **fixed_params)
            self.func.__name__ = func.__name__
        else:
            self.func = func
        super().__init__(node_label=node_label, **kwargs)
        self.arg_names = []
        for key, value in kwargs.items():
            self.arg_names.append(key)
            self.add_parameter(key, value)
        if not outputs:
            outputs = ['function_node_result']
        self.outputs = outputs
        for name in outputs:
            self.add_parameter(name, None)
            self.setters[name].set_as_compute_output(param_name=name)

    @ref('function nodes', uninterp=('ParameterizedNode._update_node_string',), calls=('_update_node_string',))
    def _update_node_string(self, new_str=None):
        if new_str is None:
            pos_string = f'_{self.node_pos}' if self.node_pos is not None else ''
            fn_str = f':{self.func.__name__}' if self.func is not None else ''
            new_str = f'{self.__class__.__name__}{fn_str}{pos_string}'
        super()._update_node_string(new_str)

    @ref('function nodes')
    def _build_inputs(self, graph_state, **kwargs):
        args = {}
        for key in self.arg_names:
            if key in kwargs:
                args[key] = kwargs[key]
            else:
                args[key] = graph_state[self.node_string][key]
        return args

    @ref('function nodes', calls=('set',))
    def _save_results(self, results, graph_state):
        if len(self.outputs) == 1:
            graph_state.set(self.node_string, self.outputs[0], results)
        else:
            if len(results) != len(self.outputs):
                raise ValueError
            for i in range(len(self.outputs)):
                graph_state.set(self.node_string, self.outputs[i], results[i])

    @ref('structure', uninterp=('ParameterizedNode._dependency_graph_helper',), calls=('_dependency_graph_helper', 'add_edge'))
    def _dependency_graph_helper(self, dependency_graph):
        node_name = str(self)
        if node_name in dependency_graph.all_nodes:
            return
        super()._dependency_graph_helper(dependency_graph)
        for param_name, setter in self.setters.items():
            if setter.source_type == ParameterSource.COMPUTE_OUTPUT:
                out_full_name = GraphState.extended_param_name(node_name, param_name)
                for input_name in self.arg_names:
                    input_full_name = GraphState.extended_param_name(node_name, input_name)
                    dependency_graph.add_edge(input_full_name, out_full_name)

    @ref('function nodes', uninterp=('FunctionNode._build_inputs', 'FunctionNode._save_results'), calls=('_save_results',))
    def compute(self, graph_state, rng_info=None, **kwargs):
        if self.func is None:
            raise ValueError
        args = self._build_inputs(graph_state, **kwargs)
        results = self.func(**args)
        self._save_results(results, graph_state)
        return results

    @ref('function nodes', uninterp=('ParameterizedNode.sample_parameters', 'ParameterizedNode.get_param'), calls=('sample_parameters',))
    def generate(self, given_args=None, num_samples=1, rng_info=None, **kwargs):
        state = self.sample_parameters(given_args, num_samples, rng_info)
        if len(self.outputs) == 1:
            return self.get_param(state, self.outputs[0])
        results = []
        for output_name in self.outputs:
            results.append(self.get_param(state, output_name))
        return results

