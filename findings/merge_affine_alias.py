"""Numerical demonstration (not a check): constant bounds of the inputs to merge, mode affine."""
import numpy as np, keras.ops as K
from decomon.core import InputsOutputsSpec, BoxDomain
s = InputsOutputsSpec(mode="affine", perturbation_domain=BoxDomain())
x = K.convert_to_tensor(np.array([[[0.0], [1.0]]], dtype="float32")); w = K.ones((1, 1, 1)); b = K.zeros((1, 1))
r = s.get_fullinputs_by_type_from_inputsformode_to_merge([x, w, b, w, b], compute_ibp_from_affine=True)
print("upper", np.array(r[1][0]), "lower", np.array(r[4][0]), "expected 1 and 0")
