SEEDS = []
def S(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo))

S("p01-bn-negative-gamma", "P01", "BatchNormalization with a negative scale, affine bounds with distinct upper and lower functions",
  "affine weights of BatchNormalization multiply each bound by gamma without exchanging upper and lower where gamma is negative",
  [("layers/decomon_layers.py", "            w_u_out = K.maximum(z_value, gamma) * w_u_0 + K.minimum(z_value, gamma) * w_l_0\n            w_l_out = K.maximum(z_value, gamma) * w_l_0 + K.minimum(z_value, gamma) * w_u_0\n",
    "            w_u_out = gamma * w_u_0\n            w_l_out = gamma * w_l_0\n")],
"""from h import *
i = Input((2,)); m = Model(i, Dense(1)(BatchNormalization()(Dense(2, activation="relu")(i))))
ok = True
for s in range(6):
    setw(m, seed=s)
    ok &= sound(m, [-1, -1], [1, 1], "forward-affine")
finish(ok)
""")

S("p01-conv-dilation-neg", "P01", "Conv2D with dilation and padding same, negative kernel values",
  "the convolution by the negative part of the kernel forgets the dilation",
  [("layers/decomon_layers.py", "                K.minimum(z_value, self.kernel),\n                strides=list(self.strides),\n                padding=self.padding,\n                data_format=self.data_format,\n                dilation_rate=self.dilation_rate,\n",
    "                K.minimum(z_value, self.kernel),\n                strides=list(self.strides),\n                padding=self.padding,\n                data_format=self.data_format,\n")],
"""from h import *
i = Input((16,)); m = setw(Model(i, Flatten()(Conv2D(1, (3, 3), padding="same", dilation_rate=2)(Reshape((4, 4, 1))(i)))))
p = rng.normal(size=16)
finish(sound(m, p, p, "forward-ibp"))
""")

S("p02-minimum-three", "P02", "Minimum of three inputs or more",
  "the third and following inputs of DecomonMinimum are merged by their opposites twice",
  [("layers/decomon_merge_layers.py", """            for j in range(2, len(inputs_list)):
                output = maximum(
                    output,
                    inputs_list[j],
                    dc_decomp=self.dc_decomp,
                    perturbation_domain=self.perturbation_domain,
                    mode=self.mode,
                )

            return minus(""", """            for j in range(3, len(inputs_list)):
                output = maximum(
                    output,
                    inputs_list[j],
                    dc_decomp=self.dc_decomp,
                    perturbation_domain=self.perturbation_domain,
                    mode=self.mode,
                )

            return minus(""")],
"""from h import *
i = Input((2,)); m = setw(Model(i, Minimum()([Dense(2)(i), Dense(2)(i), Dense(2)(i)])))
finish(all(sound(m, p, p, k) for k in ("forward-ibp", "forward-hybrid") for p in rng.normal(size=(20, 2))))
""")

S("p03-relu-same-slope-finetuned", "P03", "relu with slope same-slope on an interval where the upper bound is at least half steep, relaxed with its chord",
  "the lower bound of relu with slope same-slope uses the offset of the upper bound when the chord is steep",
  [("utils.py", "    elif slope == Slope.S_SLOPE:\n        w_l = w_u\n        b_l = z_value * b_u\n\n    else:\n        raise NotImplementedError(f",
    "    elif slope == Slope.S_SLOPE:\n        w_l = w_u\n        b_l = b_u * K.clip(K.sign(-upper - lower), z_value, o_value)\n\n    else:\n        raise NotImplementedError(f")],
"""from h import *
i = Input((1,)); d = Dense(2, activation="relu"); e = Dense(1); m = Model(i, e(d(i))); d.set_weights([np.array([[1., -1.]]), np.zeros(2)]); e.set_weights([np.ones((2, 1)), np.zeros(1)])
finish(all(sound(m, [lo], [hi], "crown", slope="same-slope") for lo, hi in ((-1, 2), (-2, 1), (-1, 1))))
""")

S("p05-multiply-corner", "P05", "product of two bounds whose signs are mixed, where the extremum is at the corner lower*lower",
  "one of the four corners is forgotten in the constant upper bound of a product",
  [("layers/utils.py", "@@MULT@@", "@@")], "")
SEEDS.pop()

S("p07-l1-axis", "P07", "L1 ball and more outputs than inputs or a square affine function",
  "the dual norm of an L1 ball is taken along the outputs instead of the inputs when both have the same size",
  [("core.py", "        x_q = K.max(K.abs(x), axis)\n", "        x_q = K.max(K.abs(x), axis if x.shape[axis] != x.shape[-1] else -1)\n")],
"""from h import *
r = np.random.RandomState(0); x0 = r.normal(size=(1, 2)).astype("float32")
ok = True
for n, m in ((2, 3), (2, 2)):
    w = r.normal(size=(1, n, m)).astype("float32"); b = r.normal(size=(1, m)).astype("float32")
    u = N(BallDomain(eps=0.5, p=1).get_upper(x0, w, b)); l = N(BallDomain(eps=0.5, p=1).get_lower(x0, w, b))
    c = (w * x0[:, :, None]).sum(1) + b; q = 0.5 * np.abs(w).max(1)
    ok &= np.allclose(u, c + q, atol=1e-4) and np.allclose(l, c - q, atol=1e-4)
finish(ok)
""")

S("p08-merge-lower-tight", "P08", "merge layers in hybrid mode whose second input has affine bounds better than its constant ones",
  "constant lower bounds of the inputs to merge are tightened with the affine bounds of the first input when the inputs have the same shape",
  [("core.py", "                l_c_affine = self.perturbation_domain.get_lower(inputs_x[i], inputs_w_l[i], inputs_b_l[i])\n                if self.mode == ForwardMode.AFFINE:\n                    inputs_u_c[i] = u_c_affine",
    "                l_c_affine = self.perturbation_domain.get_lower(inputs_x[i], inputs_w_u[i], inputs_b_l[i])\n                if self.mode == ForwardMode.AFFINE:\n                    inputs_u_c[i] = u_c_affine")],
"""from h import *
i = Input((2,)); a = Dense(3, activation="relu")(i); b = Dense(3, activation="relu")(Dense(3)(i)); m = Model(i, Add()([Dense(3, activation="relu")(a), Dense(3, activation="relu")(b)]))
ok = True
for s in range(20):
    setw(m, seed=s); ok &= sound(m, [-1, -1], [1, 1], "forward-hybrid")
finish(ok)
""")

S("p10-bn-axis-backward", "P10", "backward propagation through BatchNormalization with non-zero moving mean and a scale different from one",
  "the bias of the backward BatchNormalization forgets the scale in front of the moving mean",
  [("backward_layers/backward_layers.py", "        b = beta - w * self.layer.moving_mean\n", "        b = beta - gamma * self.layer.moving_mean / K.sqrt(self.layer.moving_variance)\n")],
"""from h import *
i = Input((2,)); l = BatchNormalization(epsilon=0.1); m = setw(Model(i, Dense(2)(l(i))))
u, lo = bounds(m, box([0.5, 0.5], [0.5, 0.5]), "crown"); y = N(m(np.array([[0.5, 0.5]], "float32")))
finish(np.allclose(u, y, atol=1e-4) and np.allclose(lo, y, atol=1e-4))
""")

S("p10-dense-3d-bias", "P10", "backward Dense on inputs with more than one dimension (several rows) and a non constant bias",
  "the bias of BackwardDense is repeated element by element instead of row by row",
  [("backward_layers/backward_layers.py", "                K.reshape(K.repeat(self.bias[None], flatten_inputdim_wo_last_dim, axis=0), (1, -1)), batchsize, axis=0\n",
    "                K.reshape(K.repeat(self.bias[:, None], flatten_inputdim_wo_last_dim, axis=-1), (1, -1)), batchsize, axis=0\n")],
"""from h import *
i = Input((4,)); m = setw(Model(i, Flatten()(Dense(2)(Reshape((2, 2))(i)))))
finish(sound(m, -np.ones(4), np.ones(4), "crown"))
""")

S("p11-softsign-prime", "P03", "softsign on an interval of negative values", "derivative of softsign", [("utils.py", "@@", "")], "")
SEEDS.pop()

S("p12-subtract-second", "P12", "backward Subtract, second input", "@@", [("x", "", "")], ""); SEEDS.pop()

S("p12-add-lower-bias", "P12", "backward Add whose first input has different upper and lower bounds",
  "the lower affine bound given to the second input of an addition is built from the upper bound of the first one when weights are negative",
  [("backward_layers/utils.py", "    lower_0 = get_lower_box(l_c_0, u_c_0, w_l_out, b_l_out)\n    lower_1 = get_lower_box(l_c_1, u_c_1, w_l_out, b_l_out)\n\n    w_u_out_0 = w_u_out\n    b_u_out_0 = upper_1\n    w_l_out_0 = w_l_out\n    b_l_out_0 = lower_1\n",
    "    lower_0 = get_lower_box(l_c_0, u_c_0, w_l_out, b_l_out)\n    lower_1 = get_lower_box(l_c_1, l_c_1 + K.relu(u_c_1 - l_c_1), w_l_out, b_l_out)\n\n    w_u_out_0 = w_u_out\n    b_u_out_0 = upper_1\n    w_l_out_0 = w_l_out\n    b_l_out_0 = lower_0\n")],
"""from h import *
from decomon.backward_layers.utils import backward_add
a = [np.array([[1., 1.]], "float32"), np.array([[0., 0.]], "float32")]; b = [np.array([[5., 5.]], "float32"), np.array([[3., 3.]], "float32")]
I = np.eye(2, dtype="float32")[None]; z = np.zeros((1, 2), "float32")
(wu, bu, wl, bl), _ = [[N(t) for t in r] for r in backward_add(a, b, I, z, I, z, mode="ibp")]
finish(np.all(bl <= 3 + 1e-5) and np.all(bu >= 5 - 1e-5) and np.allclose(bl, 3))
""")

S("p13-merge-negative", "P13", "composition of backward bounds with distinct upper and lower functions and negative weights above",
  "the bias of the composed lower bound uses the lower bias of the layer below where the weights above are negative",
  [("models/crown.py", "    b_l = batch_dot(b_l_out, w_b_l_pos, (-1, -2)) + batch_dot(b_u_out, w_b_l_neg, (-1, -2)) + b_b_l\n", "    b_l = batch_dot(b_l_out, w_b_l, (-1, -2)) + b_b_l\n")],
"""from h import *
i = Input((2,)); m = Model(i, Dense(2)(Dense(4, activation="relu")(i)))
ok = True
for s in range(10):
    setw(m, seed=s); ok &= sound(m, [-1, -1], [1, 1], "crown")
finish(ok)
""")

S("p14-crown-map-per-layer", "P14", "a network using the same layer twice, converted with crown",
  "backward bounds are memorised by layer instead of by node, so that the second use of a shared activation reuses the relaxation of the first one",
  [("models/backward_cloning.py", "        if id(node) not in output_map:\n            backward_bounds_new = backward_layer(inputs)\n            output_map[id(node)] = backward_bounds_new\n        else:\n            backward_bounds_new = output_map[id(node)]\n",
    "        if id(node.operation) not in output_map:\n            backward_bounds_new = backward_layer(inputs)\n            output_map[id(node.operation)] = backward_bounds_new\n        else:\n            backward_bounds_new = output_map[id(node.operation)]\n")],
"""from h import *
a = Activation("relu"); i = Input((2,)); m = Model(i, Dense(1)(a(Dense(2)(a(Dense(2)(i))))))
ok = True
for s in range(20):
    setw(m, seed=s); ok &= sound(m, [-1, -1], [1, 1], "crown")
finish(ok)
""")

S("p14-depth-order", "P14", "a network with branches of different depths, so that the order of the inputs of a merge matters",
  "the inputs of a merging layer are gathered in the order they were converted instead of the order of its inputs",
  [("models/forward_cloning.py", "                for parent in parents:\n                    output += output_map[id(parent)]\n", "                for parent in sorted(parents, key=lambda parent: list(output_map).index(id(parent))):\n                    output += output_map[id(parent)]\n")],
"""from h import *
i = Input((2,)); a = Dense(2)(i); b = Dense(2, activation="relu")(a); m = setw(Model(i, Subtract()([b, a])))
finish(all(sound(m, [-1, -1], [1, 1], k) for k in ("forward-ibp", "forward-hybrid")))
""")

S("p15-convert2mode-default-domain", "P15", "ball domain, affine bounds converted to constant ones at the end of the model",
  "the conversion of the outputs to constant bounds uses the default domain",
  [("models/models.py", "", "")], ""); SEEDS.pop()
