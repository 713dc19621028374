import numpy as np
from astropy.io import ascii
from astropy.table import Table


class GraphState:
    @ref('container', attrs=('states', 'num_parameters', 'fixed_vars', 'num_samples'))
    def __init__(self, num_samples=1):
        if num_samples < 1:
            raise ValueError
        self.num_samples = num_samples
        self.num_parameters = 0
        self.states = {}
        self.fixed_vars = {}

    @ref('container')
    def __len__(self):
        return self.num_parameters

    @ref('samples', uninterp=('GraphState._iterate',))
    def __next__(self):
        return next(self._iterate())

    @ref('samples', uninterp=('GraphState._iterate',))
    def __iter__(self):
        return self._iterate()

    @ref('samples', uninterp=('GraphState.extract_single_sample',), calls=('extract_single_sample',))
    def _iterate(self):
        for idx in range(self.num_samples):
            yield self.extract_single_sample(idx)

    @ref('container')
    def __contains__(self, key):
        if key in self.states:
            return True
        elif '.' in key:
            tokens = key.split('.')
            if len(tokens) != 2:
                raise KeyError
            return tokens[0] in self.states and tokens[1] in self.states[tokens[0]]
        elif len(self.states) == 1:
            node_state = list(self.states.values())[0]
            return key in node_state
        else:
            return False

    @ref('container')
    def __eq__(self, other):
        if self.num_samples != other.num_samples:
            return False
        if len(self.states) != len(other.states):
            return False
        for node_name, node_params in self.states.items():
            if node_name not in other.states:
                return False
            other_params = other.states[node_name]
            if len(node_params) != len(other_params):
                return False
            for var_name, var_value in node_params.items():
                if var_name not in other_params:
                    return False
                try:
                    matches = np.allclose(var_value, other_params[var_name])
                except TypeError:
                    matches = np.array_equal(var_value, other_params[var_name])
                if not matches:
                    return False
        return self.fixed_vars == other.fixed_vars

    @ref('container')
    def __getitem__(self, key):
        if key in self.states:
            return self.states[key]
        elif '.' in key:
            tokens = key.split('.')
            if len(tokens) != 2:
                raise KeyError
            return self.states[tokens[0]][tokens[1]]
        elif len(self.states) == 1:
            node_state = list(self.states.values())[0]
            if key in node_state:
                return node_state[key]
        raise KeyError

    @ref('samples', copies=True, ret=('states', 'num_parameters', 'fixed_vars', 'num_samples'))
    def copy(self):
        new_state = GraphState(num_samples=self.num_samples)
        new_state.num_parameters = self.num_parameters
        for node_name, node_vars in self.states.items():
            new_state.states[node_name] = {}
            for var_name, var_value in node_vars.items():
                if isinstance(var_value, np.ndarray):
                    new_state.states[node_name][var_name] = var_value.copy()
                else:
                    new_state.states[node_name][var_name] = var_value
        for node_name, fixed_vars in self.fixed_vars.items():
            new_state.fixed_vars[node_name] = fixed_vars.copy()
        return new_state

    @ref('conversion')
    def extended_param_name(node_name, param_name):
        return f'{node_name}.{param_name}'

    @ref('conversion', uninterp=('GraphState.__init__','GraphState.set'), calls=('set','__init__'))
    def from_table(cls, input_table):
        num_samples = len(input_table)
        result = GraphState(num_samples=num_samples)
        for col in input_table.colnames:
            components = col.split('.')
            if len(components) != 2:
                raise ValueError
            if num_samples == 1:
                result.set(components[0], components[1], input_table[col].data[0])
            else:
                result.set(components[0], components[1], input_table[col].data)
        return result

    @ref('conversion', uninterp=('GraphState.from_table',), calls=('from_table','astropy.io.ascii.read'))
    def from_file(cls, filename):
        data_table = ascii.read(filename, format='ecsv')
        return GraphState.from_table(data_table)

    @ref('conversion', uninterp=('GraphState.__init__','GraphState.set'), calls=('set','__init__'))
    def from_dict(cls, data, num_samples=1):
        state = GraphState(num_samples=num_samples)
        for id1, val1 in data.items():
            if '.' in id1:
                node_name, param_name = id1.split('.')
                state.set(node_name, param_name, val1, force_copy=True, fixed=False)
            elif isinstance(val1, dict):
                for param_name, values in val1.items():
                    state.set(id1, param_name, values, force_copy=True, fixed=False)
            else:
                raise ValueError
        return state

    @ref('conversion', uninterp=('GraphState.__init__','GraphState.set','GraphState.from_dict', 'GraphState.get_all_params_names','GraphState.__getitem__'), calls=('set','__init__','from_dict'))
    def from_list(cls, data):
        if len(data) == 0:
            raise ValueError
        all_param_full_names = None
        graph_states = []
        total_samples = 0
        for current in data:
            if isinstance(current, dict):
                current = GraphState.from_dict(current)
            elif not isinstance(current, GraphState):
                raise TypeError
            current_full_names = set(current.get_all_params_names())
            if all_param_full_names is None:
                all_param_full_names = current_full_names
                ordered_full_names = current.get_all_params_names()
            elif all_param_full_names != current_full_names:
                raise ValueError
            total_samples += current.num_samples
            graph_states.append(current)
        result = GraphState(num_samples=total_samples)
        for full_name in ordered_full_names:
            node_name, param_name = full_name.split('.')
            values_list = []
            for current in graph_states:
                values_list.append(np.atleast_1d(current[full_name]))
            values = np.concatenate(values_list) if total_samples > 1 else graph_states[0][full_name]
            result.set(node_name, param_name, values, force_copy=False, fixed=False)
        return result

    @ref('conversion')
    def get_all_params_names(self):
        names = []
        for node_name, params in self.states.items():
            for param_name in params:
                names.append(self.extended_param_name(node_name, param_name))
        return names

    @ref('samples')
    def get_node_state(self, node_name, sample_num=0):
        if node_name not in self.states:
            raise KeyError
        if sample_num < 0 or sample_num >= self.num_samples:
            raise ValueError
        if self.num_samples == 1:
            values = self.states[node_name]
        else:
            values = {}
            for var_name, val in self.states[node_name].items():
                values[var_name] = val[sample_num]
        return values

    @ref('container', attrs=('states', 'num_parameters', 'fixed_vars', 'num_samples'), copies=True, calls=('[]=','add'))
    def set(self, node_name, var_name, value, force_copy=False, fixed=False):
        if '.' in node_name or '.' in var_name:
            raise ValueError
        if node_name not in self.states:
            self.states[node_name] = {}
            self.fixed_vars[node_name] = set()
        if var_name not in self.states[node_name]:
            self.num_parameters += 1
        if var_name in self.fixed_vars[node_name]:
            return
        if self.num_samples == 1:
            if force_copy and isinstance(value, np.ndarray):
                value = value.copy()
            self.states[node_name][var_name] = value
        elif value is None or np.isscalar(value):
            self.states[node_name][var_name] = np.full(self.num_samples, value)
        elif len(value) != self.num_samples:
            raise ValueError
        elif force_copy:
            self.states[node_name][var_name] = np.array(value)
        else:
            self.states[node_name][var_name] = np.asarray(value)
        if fixed:
            self.fixed_vars[node_name].add(var_name)

    @ref('container', uninterp=('GraphState.set',), calls=('set',))
    def update(self, inputs, force_copy=False, all_fixed=False):
        if isinstance(inputs, GraphState):
            if self.num_samples != inputs.num_samples and inputs.num_samples != 1:
                raise ValueError
            new_states = inputs.states
        else:
            new_states = inputs
        for node_name, node_vars in new_states.items():
            for var_name, value in node_vars.items():
                self.set(node_name, var_name, value, force_copy=force_copy, fixed=all_fixed)

    @ref('samples', copies=True, ret=('states', 'num_parameters', 'fixed_vars', 'num_samples'))
    def extract_single_sample(self, sample_num):
        if self.num_samples <= 0:
            raise ValueError
        if sample_num < 0 or sample_num >= self.num_samples:
            raise ValueError
        new_state = GraphState(1)
        new_state.num_parameters = self.num_parameters
        for node_name in self.states:
            new_state.states[node_name] = {}
            for var_name, value in self.states[node_name].items():
                if self.num_samples == 1:
                    new_state.states[node_name][var_name] = value
                else:
                    new_state.states[node_name][var_name] = value[sample_num]
        for node_name, fixed_vars in self.fixed_vars.items():
            new_state.fixed_vars[node_name] = fixed_vars.copy()
        return new_state

    @ref('samples')
    def extract_parameters(self, params):
        if isinstance(params, str):
            params = [params]
        single_params = set()
        results = {}
        for current in params:
            if '.' in current:
                node_name, param_name = current.split('.')
                if node_name in self.states and param_name in self.states[node_name]:
                    results[current] = self.states[node_name][param_name]
                else:
                    raise KeyError
            else:
                single_params.add(current)
        if len(single_params) == 0:
            return results
        first_seen_node = {}
        for node_name, node_params in self.states.items():
            for param_name, param_value in node_params.items():
                if param_name in single_params:
                    if param_name in first_seen_node:
                        if param_name in results:
                            full_name_existing = GraphState.extended_param_name(first_seen_node[param_name], param_name)
                            results[full_name_existing] = results[param_name]
                            del results[param_name]
                        full_name_current = GraphState.extended_param_name(node_name, param_name)
                        results[full_name_current] = param_value
                    else:
                        results[param_name] = param_value
                        first_seen_node[param_name] = node_name
        for param_name in single_params:
            if param_name not in first_seen_node:
                raise KeyError
        return results

    @ref('conversion', calls=('[]=',))
    def to_table(self):
        values = Table()
        for node_name, node_params in self.states.items():
            for param_name, param_value in node_params.items():
                column = [param_value] if self.num_samples == 1 else param_value
                values[self.extended_param_name(node_name, param_name)] = np.array(column)
        return values

    @ref('conversion')
    def to_dict(self):
        values = {}
        for node_name, node_params in self.states.items():
            for param_name, param_value in node_params.items():
                if self.num_samples == 1:
                    values[self.extended_param_name(node_name, param_name)] = param_value
                else:
                    values[self.extended_param_name(node_name, param_name)] = list(param_value)
        return values

    @ref('conversion', uninterp=('GraphState.to_table',), calls=('astropy.io.ascii.write',))
    def save_to_file(self, filename, overwrite=False):
        data_table = self.to_table()
        ascii.write(data_table, filename, format='ecsv', overwrite=overwrite)



class DependencyGraph:
    @ref('dependencies', attrs=('all_params','all_nodes','incoming','outgoing','num_constants'))
    def __init__(self):
        self.all_params = set()
        self.all_nodes = set()
        self.incoming = {}
        self.outgoing = {}
        self.num_constants = 0

    @ref('dependencies')
    def __len__(self):
        return len(self.all_params)

    @ref('dependencies')
    def __contains__(self, full_param_name):
        return full_param_name in self.all_params

    @ref('dependencies', attrs=('all_params','all_nodes','incoming','outgoing'), calls=('add','[]='))
    def add_parameter(self, param_name, node_name=None):
        if node_name is not None:
            if node_name not in self.all_nodes:
                self.all_nodes.add(node_name)
            param_name = GraphState.extended_param_name(node_name, param_name)
        if param_name not in self.all_params:
            self.all_params.add(param_name)
            self.incoming[param_name] = []
            self.outgoing[param_name] = []

    @ref('dependencies', attrs=('num_constants',), uninterp=('DependencyGraph.add_parameter',), calls=('add_parameter',))
    def add_constant(self, value):
        const_name = f'const_{self.num_constants}={value}'
        self.num_constants += 1
        self.add_parameter(const_name)
        return const_name

    @ref('dependencies', attrs=('incoming','outgoing'), calls=('append',))
    def add_edge(self, from_param, to_param):
        if from_param not in self.all_params or to_param not in self.all_params:
            raise KeyError
        self.incoming[to_param].append(from_param)
        self.outgoing[from_param].append(to_param)



@ref('conversion')
def transpose_dict_of_list(input_dict, num_elem):
    if num_elem < 1:
        raise ValueError
    output_list = [{} for _ in range(num_elem)]
    for key, values in input_dict.items():
        if len(values) != num_elem:
            raise ValueError
        for i in range(num_elem):
            output_list[i][key] = values[i]
    return output_list
