SEEDS = []
def S(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo))

S("p43-last-activation", "P43", "network whose last layers hold no activation (BatchNormalization, Reshape) and follow a softmax",
  "the softmax left out at conversion is the one of the last layer holding an activation, also when layers without activation follow it",
  [("layers/utils.py", "    layer = model.layers[-1]\n    # check that", "    layer = next((e for e in reversed(model.layers) if hasattr(e, \"activation\")), model.layers[-1])\n    # check that")],
"""from h import *
i = Input((2,)); m = setw(Model(i, BatchNormalization()(Dense(2, activation="softmax")(i))))
finish(all(sound(m, p, p, "forward-ibp") for p in rng.normal(size=(20, 2))))
""")

S("p27-lower-loss-row", "P27", "loss on lower bounds, hybrid mode",
  "the loss on lower bounds reads the biases of the affine bounds in place of the constant bounds in hybrid mode",
  [("metrics/loss.py", "            b_l = y_pred[:, -2, n_comp + n_out :]\n            l_c = y_pred[:, -1, n_comp + n_out :]\n\n        else:\n            raise ValueError(f\"Unknown mode {mode}\")\n\n        if ibp:\n            score_ibp = lower_ibp",
    "            b_l = y_pred[:, -2, n_comp + n_out :]\n            l_c = y_pred[:, -2, n_comp + n_out :]\n\n        else:\n            raise ValueError(f\"Unknown mode {mode}\")\n\n        if ibp:\n            score_ibp = lower_ibp")],
"""from h import *
from decomon.metrics.loss import get_model, get_lower_loss
ok = True
for s in range(10):
    i = Input((2,)); m = setw(Model(i, Dense(2, activation="relu")(Dense(3, activation="relu")(i))), seed=s)
    d = clone(m, method="forward-hybrid")
    b = box([-1, -1], [1, 1])
    o = [N(t) for t in d(b)]
    x = samples(b)
    pred = get_model(d)(b)
    v = float(get_lower_loss(d)(K.zeros((1, 2)), pred))
    # loss >= - minimum over the box (reference 0), and exact value from the bounds
    w, c, l = o[5], o[6], o[4]
    lower = (np.maximum(w, 0) * b[:, 0][:, :, None] + np.minimum(w, 0) * b[:, 1][:, :, None]).sum(1) + c
    ref = min((-l).max(), (-lower).max())
    ok &= abs(v - ref) < 1e-3
finish(ok)
""")

S("p10-toeplitz-dilation", "P10", "Conv2D with dilation and padding same, backward propagation",
  "the matrix of a convolution with channels last ignores the dilation",
  [("backward_layers/utils_conv.py", "        dilation_rate=list(conv_layer.dilation_rate),\n        padding=conv_layer.padding,\n    )\n\n    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size, c_in))\n\n    shape = list(range(len(diag_patches_.shape)))\n    shape[-1] -= 1\n    shape[-2] += 1\n    diag_patches_ = K.transpose(diag_patches_, shape)\n    kernel = conv_layer.kernel  # (filter_size_w, filter_size_h, c_in, c_out)\n\n    kernel = K.transpose(K.reshape(kernel, (filter_size, c_in, c_out)), (1, 2, 0))[\n        None, None, None, None, None\n    ]  # (1,1,c_in, c_out, filter_size)\n\n    # element-wise",
    "        padding=conv_layer.padding,\n    )\n\n    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size, c_in))\n\n    shape = list(range(len(diag_patches_.shape)))\n    shape[-1] -= 1\n    shape[-2] += 1\n    diag_patches_ = K.transpose(diag_patches_, shape)\n    kernel = conv_layer.kernel  # (filter_size_w, filter_size_h, c_in, c_out)\n\n    kernel = K.transpose(K.reshape(kernel, (filter_size, c_in, c_out)), (1, 2, 0))[\n        None, None, None, None, None\n    ]  # (1,1,c_in, c_out, filter_size)\n\n    # element-wise")],
"""from h import *
i = Input((16,)); m = setw(Model(i, Flatten()(Conv2D(1, (3, 3), padding="same", dilation_rate=2)(Reshape((4, 4, 1))(i)))))
p = rng.normal(size=16)
finish(sound(m, p, p, "crown"))
""")

S("p26-noise-lower-norm", "P26", "ball, affine bounds with distinct upper and lower functions",
  "the lower bound over a ball subtracts the norm of the weights of the upper bound",
  [("wrapper.py", "        l_f = -eps * np.linalg.norm(w_l_f, ord=ord, axis=1) + np.sum(w_l_f * x_reshaped[:, :, None], 1) + b_l_f\n\n    else:", "        l_f = -eps * np.linalg.norm(w_u_f, ord=ord, axis=1) + np.sum(w_l_f * x_reshaped[:, :, None], 1) + b_l_f\n\n    else:")],
"""from h import *
from decomon import get_range_noise
ok = True
for s in range(30):
    i = Input((2,)); m = setw(Model(i, Dense(1)(Dense(3, activation="relu")(i))), seed=s)
    x = rng.normal(size=(1, 2)).astype("float32")
    for slope in ("volume-slope", "one-lb"):
        d = clone(m, method="crown-forward-hybrid", perturbation_domain=BallDomain(eps=0.5, p=2), slope=slope, final_ibp=False, final_affine=True)
        u, l = get_range_noise(d, x, eps=0.5, p=2)
        a = np.linspace(0, 2 * np.pi, 400)
        y = N(m((x + 0.5 * np.stack([np.cos(a), np.sin(a)], 1)).astype("float32")))
        ok &= enclosed(l, u, y)
finish(ok)
""")

S("p25-split-first-box", "P25", "several boxes refined in sub-boxes, with different longest sides",
  "the boxes are cut at the middle of the first box of the batch",
  [("wrapper.py", "        split_value = np.array([mid_x[i, index_k, j[i]] for i in index_0])", "        split_value = np.array([mid_x[0, index_k, j[i]] for i in index_0])")],
"""from h import *
from decomon.wrapper import refine_boxes
lo = np.array([[0., 0.], [4., -3.]]); hi = np.array([[1., 2.], [9., 1.]])
a, b = refine_boxes(lo, hi, 4)
ok = bool((a <= b).all() and np.allclose(a.min(1), lo) and np.allclose(b.max(1), hi))
vol = np.prod(b - a, -1).sum(1)
finish(ok and np.allclose(vol, np.prod(hi - lo, -1)))
""")

S("p17-alpha-nonneg", "P17", "fine-tuned backward activation whose parameter training makes greater than 1",
  "the parameter of the lower bound in backward propagation is only kept non-negative",
  [("backward_layers/backward_layers.py", "                    name=\"alpha_l_b\",\n                    regularizer=None,\n                    constraint=ClipAlpha(),\n", "                    name=\"alpha_l_b\",\n                    regularizer=None,\n                    constraint=NonNeg(),\n")],
"""from h import *
ok = True
for s in range(8):
    i = Input((2,)); m = setw(Model(i, Dense(1)(Dense(3, activation="relu")(i))), seed=s)
    d = clone(m, method="crown-forward-ibp", finetune_backward=True, finetune=True, final_ibp=True, final_affine=False)
    for v in d.trainable_variables:
        if "alpha" in v.name:
            v.assign(v.constraint(v + 4.))
    b = box([-1, -1], [1, 1])
    o = d(b)
    ok &= enclosed(N(o[1])[0], N(o[0])[0], N(m(samples(b))))
finish(ok)
""")

S("p16-finetune-backward", "P16", "finetune_backward without finetune_forward, or the opposite",
  "the backward pass is fine-tuned when the forward pass is asked to be",
  [("models/convert.py", "            finetune=finetune_backward,\n", "            finetune=finetune_forward,\n")],
"""from h import *
i = Input((2,)); m = setw(Model(i, Dense(1)(Dense(3, activation="relu")(i))))
n = lambda **k: sum("alpha" in v.name for v in clone(m, method="crown-forward-ibp", **k).variables)
finish(n(finetune_backward=True) > 0 and n() == 0)
""")

S("p19-backward-activation-finetune", "P19", "rebuilding a fine-tuned backward activation from its configuration",
  "the configuration of a backward activation always reports that it is not fine-tuned",
  [("backward_layers/backward_layers.py", '                "finetune": self.finetune,\n', '                "finetune": False,\n')],
"""from h import *
from decomon.backward_layers.backward_layers import BackwardActivation
a = Activation("relu"); a(Input((2,)))
l = BackwardActivation(a, slope="zero-lb", finetune=True, mode="ibp")
finish(l.get_config()["finetune"] is True)
""")

S("p13-merge-diag", "P13", "backward bounds of an activation given as the diagonal of a matrix, below a layer with negative weights",
  "the biases of the lower bound of the layer below are composed with the positive weights only",
  [("models/crown.py", "    b_l = batch_dot(b_l_out, w_b_l_pos, (-1, -2)) + batch_dot(b_u_out, w_b_l_neg, (-1, -2)) + b_b_l\n", "    b_l = batch_dot(b_l_out, w_b_l, (-1, -2)) + b_b_l\n")],
"""from h import *
ok = True
for s in range(10):
    i = Input((2,)); m = setw(Model(i, Dense(2)(Dense(3, activation="relu")(i))), seed=s)
    ok &= sound(m, [-1, -1], [1, 1], "crown")
finish(ok)
""")

S("p24-split-name", "P24", "dense layer holding an activation given with parameters",
  "placeholder", [], "")
SEEDS.pop()

S("p20-convert-affine-shape", "P20", "conversion of constant bounds to affine ones when the width of the layer is not the input dimension",
  "placeholder", [], "")
SEEDS.pop()
