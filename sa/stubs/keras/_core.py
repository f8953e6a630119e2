# Model of the parts of the Keras API the analysed tree relies on.  This file is
# interpreted by the abstract interpreter, it is never executed.
import _sa

KerasTensor = _sa.KerasTensor
Variable = _sa.Variable


def _flat(x):
    if isinstance(x, (list, tuple)):
        r = []
        for e in x:
            r += _flat(e)
        return r
    if isinstance(x, dict):
        r = []
        for e in x.values():
            r += _flat(e)
        return r
    if _sa.is_tensor(x):
        return [x]
    return []


def _subst(x, mapping):
    if isinstance(x, list):
        return [_subst(e, mapping) for e in x]
    if isinstance(x, tuple):
        return tuple([_subst(e, mapping) for e in x])
    if isinstance(x, dict):
        return {k: _subst(v, mapping) for k, v in x.items()}
    if _sa.is_tensor(x):
        return mapping.get(id(x), x)
    return x


def _shapes(x):
    if isinstance(x, list):
        return [_shapes(e) for e in x]
    if isinstance(x, tuple):
        return [_shapes(e) for e in x]
    return tuple(x.shape)


class KerasHistory:
    def __init__(self, operation, node_index, tensor_index):
        self.operation = operation
        self.node_index = node_index
        self.tensor_index = tensor_index

    def __iter__(self):
        return iter([self.operation, self.node_index, self.tensor_index])


class Node:
    def __init__(self, operation, call_args=None, call_kwargs=None, outputs=None):
        self.operation = operation
        self.args = call_args
        self.kwargs = call_kwargs
        self.is_input = not call_args
        self.input_tensors = _flat(list(call_args)) if call_args else []
        self.output_tensors = _flat(outputs)
        self.outputs = outputs
        self.parent_nodes = []
        for t in self.input_tensors:
            h = getattr(t, "_keras_history", None)
            if h is not None:
                n = h.operation._inbound_nodes[h.node_index]
                self.parent_nodes.append(n)
                if operation not in n.operation._outbound_ops:
                    n.operation._outbound_ops.append(operation)
                n.operation._outbound_nodes.append(self)
        operation._inbound_nodes.append(self)
        idx = len(operation._inbound_nodes) - 1
        for i, t in enumerate(self.output_tensors):
            _sa.set_history(t, KerasHistory(operation, idx, i))


class Operation:
    def __init__(self, name=None):
        if name is None:
            name = _sa.auto_name(self.__class__.__name__)
        if not isinstance(name, str):
            raise ValueError("Argument `name` must be a string")
        self._inbound_nodes = []
        self._outbound_nodes = []
        self._outbound_ops = []
        self.name = name

    def __call__(self, *args, **kwargs):
        out = self.call(*args, **kwargs)
        if any([_sa.is_sym(t) for t in _flat(list(args))]):
            out = _sa.fresh_outputs(out)
            Node(self, list(args), kwargs, out)
        return out

    def symbolic_call(self, *args, **kwargs):
        return self.__call__(*args, **kwargs)

    def call(self, *args, **kwargs):
        raise NotImplementedError

    def compute_output_spec(self, *args, **kwargs):
        return self.call(*args, **kwargs)

    def get_config(self):
        return {"name": self.name}

    @classmethod
    def from_config(cls, config):
        return cls(**config)

    @property
    def input(self):
        return self._io("input_tensors")

    @property
    def output(self):
        return self._io("output_tensors")

    def _io(self, what):
        if not self._inbound_nodes:
            raise ValueError("The layer " + self.name + " has never been called and thus has no defined input/output.")
        v = getattr(self._inbound_nodes[0], what)
        if len(v) == 1:
            return v[0]
        return v


class InputSpec:
    def __init__(self, dtype=None, shape=None, ndim=None, max_ndim=None, min_ndim=None, axes=None, allow_last_axis_squeeze=False, name=None, optional=False):
        self.shape = shape
        self.ndim = ndim
        self.max_ndim = max_ndim
        self.min_ndim = min_ndim
        self.axes = axes or {}
        self.dtype = dtype


def _check_spec(layer, spec, inputs):
    if not spec:
        return
    specs = spec if isinstance(spec, (list, tuple)) else [spec]
    ins = _flat(inputs) if isinstance(inputs, (list, tuple)) else [inputs]
    if len(specs) != len(ins):
        raise ValueError("Layer " + layer.name + " expects " + str(len(specs)) + " input(s), but it received " + str(len(ins)) + " input tensors.")
    for s, t in zip(specs, ins):
        if s is None:
            continue
        nd = len(t.shape)
        if s.ndim is not None and nd != s.ndim:
            raise ValueError("input is incompatible with layer " + layer.name + ": ndim")
        if s.min_ndim is not None and nd < s.min_ndim:
            raise ValueError("input is incompatible with layer " + layer.name + ": min_ndim " + str(s.min_ndim) + " got " + str(nd))
        for ax, v in s.axes.items():
            if v is not None and t.shape[ax] != v:
                raise ValueError("input is incompatible with layer " + layer.name + ": axes")


class _Tracker:
    def __init__(self, layer):
        self.layer = layer
        self.locked = False

    def untrack(self, v):
        for store in (self.layer._trainable_variables, self.layer._non_trainable_variables, self.layer._layers):
            _sa.remove_identity(store, v)


class _DtypePolicy:
    name = "float32"
    compute_dtype = "float32"
    variable_dtype = "float32"


class Layer(Operation):
    _sa_tracked = True

    def __init__(self, *, activity_regularizer=None, trainable=True, dtype=None, autocast=True, name=None, **kwargs):
        self._tracked_init()
        Operation.__init__(self, name=name)
        input_dim_arg = kwargs.pop("input_dim", None)
        input_shape_arg = kwargs.pop("input_shape", None)
        if input_dim_arg is not None:
            self._input_shape_arg = (input_dim_arg,)
        elif input_shape_arg is not None:
            self._input_shape_arg = input_shape_arg
        if kwargs:
            raise ValueError("Unrecognized keyword arguments passed to " + self.__class__.__name__ + ": " + str(list(kwargs)))
        self.activity_regularizer = activity_regularizer
        self.built = False
        self.autocast = autocast
        self._dtype = dtype if isinstance(dtype, str) else "float32"
        self.dtype_policy = _DtypePolicy()
        self._input_spec = None
        self._called = False
        self._trainable = trainable
        self._losses = []
        self.supports_jit = True
        self._supports_masking = False

    def _tracked_init(self):
        self._trainable_variables = []
        self._non_trainable_variables = []
        self._layers = []
        self._tracker = _Tracker(self)

    @property
    def input_spec(self):
        return self._input_spec

    @input_spec.setter
    def input_spec(self, v):
        self._input_spec = v

    @property
    def dtype(self):
        return self._dtype

    @property
    def compute_dtype(self):
        return self._dtype

    @property
    def variable_dtype(self):
        return self._dtype

    @property
    def supports_masking(self):
        return self._supports_masking

    @supports_masking.setter
    def supports_masking(self, v):
        self._supports_masking = v

    def build(self, input_shape):
        self.built = True

    def _maybe_build(self, args):
        if not self.built:
            if len(args):
                self.build(_shapes(args[0]))
            else:
                self.build(None)
            self.built = True
            self._tracker.locked = True

    def __call__(self, *args, **kwargs):
        for a in args:
            for t in _flat(a):
                _sa.check_tensor(t)
        if len(args):
            _check_spec(self, self._input_spec, args[0])
        self._maybe_build(args)
        if _sa.call_has_training(self):
            kwargs.setdefault("training", False)
        out = self.call(*args, **kwargs)
        if any([_sa.is_sym(t) for t in _flat(list(args))]):
            out = _sa.fresh_outputs(out)
            Node(self, list(args), kwargs, out)
        return out

    def add_weight(self, shape=None, initializer=None, dtype=None, trainable=True, regularizer=None, constraint=None, name=None, **kwargs):
        if shape is None:
            shape = ()
        if self._tracker.locked:
            raise ValueError("You cannot add new elements of state (variables or sub-layers) to a layer that is already built.")
        v = _sa.new_variable(self, shape, initializer, trainable, constraint, name)
        if trainable:
            self._trainable_variables.append(v)
        else:
            self._non_trainable_variables.append(v)
        return v

    def add_variable(self, *args, **kwargs):
        return self.add_weight(*args, **kwargs)

    @property
    def trainable(self):
        return self._trainable

    @trainable.setter
    def trainable(self, value):
        value = bool(value)
        self._trainable = value
        for v in self._trainable_variables:
            v.trainable = value
        for layer in self._layers:
            layer.trainable = value

    @property
    def weights(self):
        return _sa.dedup(self._trainable_variables + self._non_trainable_variables + [w for l in self._layers for w in l.weights])

    @property
    def variables(self):
        return self.weights

    @property
    def trainable_weights(self):
        if not self.trainable:
            return []
        return [v for v in self.weights if v.trainable]

    @property
    def trainable_variables(self):
        return self.trainable_weights

    @property
    def non_trainable_weights(self):
        if not self.trainable:
            return self.weights
        return [v for v in self.weights if not v.trainable]

    @property
    def non_trainable_variables(self):
        return self.non_trainable_weights

    def get_weights(self):
        return [v.numpy() for v in self.weights]

    def set_weights(self, weights):
        ws = self.weights
        if len(ws) != len(weights):
            raise ValueError("set_weights: wrong number of weights for layer " + self.name)
        for v, w in zip(ws, weights):
            if tuple(v.shape) != tuple(w.shape):
                raise ValueError("set_weights: shape mismatch for layer " + self.name)
            v.assign(w)

    def compute_output_shape(self, *args, **kwargs):
        raise NotImplementedError("compute_output_shape")

    def compute_output_spec(self, *args, **kwargs):
        shp = self.compute_output_shape(_shapes(args[0]))
        return _sa.spec_from_shapes(shp)

    def compute_mask(self, inputs, previous_mask):
        return previous_mask

    def get_config(self):
        config = Operation.get_config(self)
        config["trainable"] = self.trainable
        config["dtype"] = self._dtype
        return config

    def _flatten_layers(self, include_self=True, recursive=True):
        out = [self] if include_self else []
        for l in self._sub_layers():
            for x in l._flatten_layers() if recursive else [l]:
                if not any([x is y for y in out]):
                    out.append(x)
        return out

    def _sub_layers(self):
        return list(self._layers)

    def count_params(self):
        return sum([w.size for w in self.weights])

    def _check_super_called(self):
        pass

    def _lock_state(self):
        self._tracker.locked = True


class InputLayer(Layer):
    def __init__(self, shape=None, batch_size=None, dtype=None, sparse=None, batch_shape=None, input_tensor=None, name=None, **kwargs):
        super().__init__(name=name)
        if batch_shape is not None:
            shape = tuple(batch_shape[1:])
        self.batch_shape = (None,) + tuple(shape)
        self._dtype = dtype if isinstance(dtype, str) else "float32"
        out = _sa.new_input(shape, self.name) if input_tensor is None else input_tensor
        Node(self, None, None, out)
        self.built = True

    def call(self):
        return None

    def get_config(self):
        return {"batch_shape": self.batch_shape, "dtype": self._dtype, "sparse": False, "name": self.name}


def Input(shape=None, batch_size=None, dtype=None, sparse=None, batch_shape=None, name=None, tensor=None):
    if isinstance(shape, int):
        shape = (shape,)
    layer = InputLayer(shape=shape, batch_shape=batch_shape, dtype=dtype, name=name)
    return layer._inbound_nodes[0].output_tensors[0]


class Wrapper(Layer):
    def __init__(self, layer, **kwargs):
        super().__init__(**kwargs)
        self.layer = layer

    def build(self, input_shape=None):
        if not self.layer.built:
            self.layer.build(input_shape)
            self.layer.built = True
        self.built = True

    def get_config(self):
        config = super().get_config()
        config["layer"] = self.layer
        return config


class Lambda(Layer):
    def __init__(self, function, output_shape=None, mask=None, arguments=None, **kwargs):
        super().__init__(**kwargs)
        self.function = function
        self.arguments = arguments or {}
        self._output_shape = output_shape

    def call(self, inputs, mask=None, training=None):
        return self.function(inputs, **self.arguments)

    def compute_output_shape(self, input_shape):
        if self._output_shape is None:
            raise NotImplementedError("lambda")
        return self._output_shape

    def get_config(self):
        config = super().get_config()
        config["function"] = self.function
        config["arguments"] = self.arguments
        return config


def _map_graph(inputs, outputs):
    nodes = []
    depth = {}
    by_id = {}
    in_ids = [id(t) for t in inputs]

    def node_of(t):
        h = t._keras_history
        return h.operation._inbound_nodes[h.node_index]

    order = []
    seen = {}

    def visit(node):
        if id(node) in seen:
            return
        seen[id(node)] = True
        if not (node.output_tensors and all([id(o) in in_ids for o in node.output_tensors])):
            for t in node.input_tensors:
                if getattr(t, "_keras_history", None) is not None:
                    visit(node_of(t))
        order.append(node)

    for o in outputs:
        if getattr(o, "_keras_history", None) is None:
            raise ValueError("output tensor of the Functional model is not the output of a Keras layer")
        visit(node_of(o))
    for n in order:
        depth[id(n)] = 0
    for n in reversed(order):
        d = depth[id(n)]
        if n.output_tensors and all([id(o) in in_ids for o in n.output_tensors]):
            continue
        for t in n.input_tensors:
            if getattr(t, "_keras_history", None) is not None:
                p = node_of(t)
                depth[id(p)] = max(depth[id(p)], d + 1)
    # operations sit at the max depth of their nodes
    opd = {}
    for n in order:
        k = id(n.operation)
        opd[k] = max(opd.get(k, 0), depth[id(n)])
    maxd = max([depth[id(n)] for n in order]) if order else 0
    ops = []
    by_depth = {}
    for n in order:
        d = depth[id(n)]
        by_depth.setdefault(d, []).append(n)
    for n in order:
        if not any([n.operation is o for o in ops]):
            ops.append(n.operation)
    ops_sorted = _sa.sort_ops(ops, opd)
    keys = sorted(by_depth.keys(), reverse=True)
    return {k: by_depth[k] for k in keys}, ops_sorted


class Model(Layer):
    def __new__(cls, *args, **kwargs):
        if cls is Model and (len(args) == 2 or "outputs" in kwargs):
            return Functional(*args, **kwargs)
        return _sa.new_object(cls)

    def __init__(self, inputs=None, outputs=None, name=None, trainable=True, **kwargs):
        Layer.__init__(self, name=name, **kwargs)
        if outputs is not None:
            self._functional_init(inputs, outputs)

    def _functional_init(self, inputs, outputs):
        self._inputs = _flat(inputs)
        self._outputs = _flat(outputs)
        self._inputs_struct = inputs
        self._outputs_struct = outputs
        self._graph_done = False
        self.built = True
        names = [l.name for l in _sa.collect_layers(self._inputs, self._outputs, Layer)]
        for n in names:
            if names.count(n) != 1:
                raise ValueError("The name " + n + " is used several times in the model. All operation names should be unique.")

    def _graph(self):
        if not self._graph_done:
            d, ops = _map_graph(self._inputs, self._outputs)
            self._nodes_by_depth_ = d
            self._operations_ = ops
            self._graph_done = True

    @property
    def _nodes_by_depth(self):
        self._graph()
        return self._nodes_by_depth_

    @property
    def operations(self):
        self._graph()
        return list(self._operations_)

    @property
    def inputs(self):
        return self._inputs

    @property
    def outputs(self):
        return self._outputs

    @property
    def input(self):
        return self._inputs_struct

    @property
    def output(self):
        return self._outputs_struct

    @property
    def layers(self):
        if _sa.all_layer_graph(self._inputs, self._outputs):
            self._graph()
            return [o for o in self._operations_ if isinstance(o, Layer)]
        return _sa.collect_layers(self._inputs, self._outputs, Layer)

    def _sub_layers(self):
        return self.layers

    def get_layer(self, name=None, index=None):
        if index is not None:
            return self.layers[index]
        for l in self.layers:
            if l.name == name:
                return l
        raise ValueError("No such layer: " + str(name))

    @property
    def weights(self):
        return _sa.dedup([w for l in self.layers for w in l.weights])

    @property
    def input_shape(self):
        shapes = [t.shape for t in self._inputs]
        return shapes[0] if len(shapes) == 1 else shapes

    @property
    def output_shape(self):
        shapes = [t.shape for t in self._outputs]
        return shapes[0] if len(shapes) == 1 else shapes

    def call(self, inputs, training=None, mask=None):
        ins = _flat(inputs)
        if len(ins) != len(self._inputs):
            raise ValueError("model called with a wrong number of inputs")
        if not _sa.all_layer_graph(self._inputs, self._outputs):
            return _sa.replay(self._outputs_struct, self._inputs, ins)
        self._graph()
        m = {}
        for a, b in zip(self._inputs, ins):
            m[id(a)] = b
        for d, nodes in self._nodes_by_depth_.items():
            for n in nodes:
                if all([id(o) in m for o in n.output_tensors]):
                    continue
                args = _subst(n.args, m)
                op = n.operation
                out = op(*args, **n.kwargs)
                for a, b in zip(n.output_tensors, _flat(out)):
                    m[id(a)] = b
        return _subst(self._outputs_struct, m)

    def compile(self, *args, **kwargs):
        _sa.event("compile", self, args, kwargs)

    def fit(self, *args, **kwargs):
        _sa.event("fit", self, args, kwargs)

    def predict(self, x, batch_size=None, verbose="auto", steps=None, **kwargs):
        return _sa.predict(self, x)

    def evaluate(self, *args, **kwargs):
        return _sa.unsupported("evaluate")

    def get_config(self):
        return {"name": self.name, "trainable": True}


class Functional(Model):
    def __init__(self, inputs, outputs, name=None, **kwargs):
        Model.__init__(self, inputs, outputs, name=name, **kwargs)


class Sequential(Model):
    def __init__(self, layers=None, trainable=True, name=None):
        Layer.__init__(self, name=name)
        self._slayers = []
        self._graph_done = False
        self._inputs = []
        self._outputs = []
        for l in layers or []:
            self.add(l)

    def add(self, layer, rebuild=True):
        if _sa.is_tensor(layer):
            self._inputs = [layer]
            self._inputs_struct = [layer]
            self._cur = layer
            return
        if not self._inputs:
            shp = getattr(layer, "_input_shape_arg", None)
            if shp is None:
                return _sa.unsupported("Sequential without input shape")
            t = Input(shp)
            self._inputs = [t]
            self._inputs_struct = [t]
            self._cur = t
        self._slayers.append(layer)
        self._cur = layer(self._cur)
        self._outputs = [self._cur]
        self._outputs_struct = self._cur
        self._graph_done = False
        self.built = True

    @property
    def layers(self):
        return list(self._slayers)


def _act_name(a):
    if a is None:
        return "linear"
    if isinstance(a, str):
        return a
    if isinstance(a, Layer):
        return {"class_name": a.__class__.__name__, "config": a.get_config()}
    return a.__name__
