SEEDS = []
def S(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo))

S("p15-minimum-domain", "P15", "ball domain and a Minimum layer in a forward pass",
  "the minimum of two inputs is computed with the default box domain instead of the domain of the layer",
  [("layers/decomon_merge_layers.py", "            for single_inputs in inputs_list\n        ]\n\n        #  check number of inputs\n        if len(inputs_list) == 1:  # nothing to merge\n            return inputs\n        else:\n            output = maximum(\n                inputs_list[0],\n                inputs_list[1],\n                dc_decomp=self.dc_decomp,\n                perturbation_domain=self.perturbation_domain,\n                mode=self.mode,\n            )",
    "            for single_inputs in inputs_list\n        ]\n\n        #  check number of inputs\n        if len(inputs_list) == 1:  # nothing to merge\n            return inputs\n        else:\n            output = maximum(inputs_list[0], inputs_list[1], dc_decomp=self.dc_decomp, mode=self.mode)")],
"""from h import *
ok = True
for s in range(10):
    i = Input((2,)); m = setw(Model(i, Minimum()([Dense(3)(i), Dense(3)(i)])), seed=s)
    try:
        d = clone(m, method="forward-affine", perturbation_domain=BallDomain(eps=0.7, p=2), final_ibp=True, final_affine=False)
        x = rng.normal(size=(1, 2)).astype("float32")
        o = [N(t) for t in d(x)]
    except Exception as e:
        finish(False, repr(e)[:200])
    a = np.linspace(0, 2 * np.pi, 200)
    y = N(m((x + 0.7 * np.stack([np.cos(a), np.sin(a)], 1)).astype("float32")))
    ok &= enclosed(o[1], o[0], y)
finish(ok)
""")

S("p30-dense-dc-no-split", "P30", "dc_decomp with a kernel having negative coefficients",
  "h and g of a Dense layer are both multiplied by the kernel: they still sum to the output but are not convex and concave",
  [("layers/decomon_layers.py", "            h_out = K.dot(h, kernel_pos) + K.dot(g, kernel_neg)\n            g_out = K.dot(g, kernel_pos) + K.dot(h, kernel_neg)", "            h_out = K.dot(h, self.kernel)\n            g_out = K.dot(g, self.kernel)")],
"""from h import *
from decomon.layers.decomon_layers import DecomonDense
l = DecomonDense(2, dc_decomp=True, mode="ibp")
t = lambda v: K.convert_to_tensor(np.array([v], "float32"))
r = []
for x in ([-1., 2.], [0., 0.], [1., -2.]):
    x = np.array(x)
    y = l([t([1., 2.]), t([-1., -2.]), t(np.maximum(x, 0)), t(-np.maximum(-x, 0))])
    l.kernel.assign(np.array([[1., -2.], [-3., 1.]], "float32")) if not r else None
    y = l([t([1., 2.]), t([-1., -2.]), t(np.maximum(x, 0)), t(-np.maximum(-x, 0))])
    r.append((N(y[-2])[0], N(y[-1])[0]))
(h0, g0), (h1, g1), (h2, g2) = r
finish(bool(np.all(2 * h1 <= h0 + h2 + 1e-5) and np.all(2 * g1 >= g0 + g2 - 1e-5)))
""")

S("p12-average-three", "P12", "Average of three inputs, backward propagation",
  "the contribution of one of the other inputs is forgotten when there are more than two",
  [("backward_layers/backward_merge.py", "            for j in range(n_elem - 1, 0, -1):\n                inputs_1 = inputs_list[j]\n                if j == 1:\n                    inputs_0 = inputs_list[0]\n                else:\n                    inputs_0 = self.op(list(chain(*inputs_list[:j])))  # merge j first inputs\n                bounds_0, bounds_1 = backward_add(\n                    inputs_0,\n                    inputs_1,\n                    w_u_out,\n                    b_u_out,\n                    w_l_out,\n                    b_l_out,\n                    perturbation_domain=self.perturbation_domain,\n                    mode=self.mode,\n                    dc_decomp=self.dc_decomp,\n                )\n                input_bounds.append(bounds_1)\n                bounds.append(bounds_0)\n                if j == 1:\n                    input_bounds.append(bounds_0)\n                # update bounds to use for next iteration\n                w_u_out, b_u_out, w_l_out, b_l_out = bounds_0\n\n            input_bounds = input_bounds[::-1]\n            return [[",
    "            for j in range(n_elem - 1, 0, -1):\n                inputs_1 = inputs_list[j]\n                inputs_0 = inputs_list[j - 1]\n                bounds_0, bounds_1 = backward_add(\n                    inputs_0,\n                    inputs_1,\n                    w_u_out,\n                    b_u_out,\n                    w_l_out,\n                    b_l_out,\n                    perturbation_domain=self.perturbation_domain,\n                    mode=self.mode,\n                    dc_decomp=self.dc_decomp,\n                )\n                input_bounds.append(bounds_1)\n                bounds.append(bounds_0)\n                if j == 1:\n                    input_bounds.append(bounds_0)\n                # update bounds to use for next iteration\n                w_u_out, b_u_out, w_l_out, b_l_out = bounds_0\n\n            input_bounds = input_bounds[::-1]\n            return [[")],
"""from h import *
from decomon.backward_layers.convert import to_backward
i = [Input((2,)) for _ in range(3)]; lay = Average(); lay(i)
bl = to_backward(lay, mode=ForwardMode.IBP)
t = lambda v: K.convert_to_tensor(np.array([v], "float32"))
L = [rng.normal(size=2) for _ in range(3)]; U = [l + rng.rand(2) * 2 for l in L]
res = bl([z for l, u in zip(L, U) for z in (t(u), t(l))])
ok = True
for _ in range(200):
    x = [l + np.round(rng.rand(2)) * (u - l) for l, u in zip(L, U)]
    y = sum(x) / 3
    for e, xi in zip(res, x):
        wu, bu, wl, bl_ = [N(k)[0] for k in e]
        f = lambda w, b: xi @ w + b if w.ndim == 2 else xi * w + b
        ok &= bool(np.all(f(wu, bu) >= y - 1e-4) and np.all(f(wl, bl_) <= y + 1e-4))
finish(ok)
""")

S("p44-adv-source-axis", "P44", "model converted with a matrix of functions, robustness score",
  "the matrix of the margins subtracts the source label along the wrong axis",
  [("wrapper.py", "            C = np.diag([1] * n_label)[None] - source_labels[:, :, None]", "            C = np.diag([1] * n_label)[None] - source_labels[:, None]")],
"""from h import *
from decomon import get_adv_box
ok = True
for s in range(5):
    i = Input((2,)); m = setw(Model(i, Dense(3)(Dense(3, activation="relu")(i))), seed=s)
    C = Input((3, 3))
    d = clone(m, method="crown", back_bounds=[C], final_ibp=True, final_affine=False)
    x = rng.normal(size=(1, 2)).astype("float32")
    y = N(m(x))[0]
    for src in range(3):
        v = get_adv_box(d, x, x, np.array([src]))
        ok &= abs(float(v[0]) - max(y[t] - y[src] for t in range(3) if t != src)) < 1e-3
finish(ok)
""")
