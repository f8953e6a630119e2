N = {
"P03": "Concave and convex functions: a line is above a convex function on an interval when it is above it at both ends; below when it is the tangent at a point, found by matching slope and value with the atoms `f(t)`, `f'(t)` the expression contains. relu is judged at its breakpoint. Sigmoid, tanh and softsign lines are P40's; only their constant bounds are judged here.",
"P05": "Undecided: products broadcast over a new axis in hybrid and ibp mode (the n-ary maxima of four products of unrelated bounds do not reduce).",
"P06": "`fast=True` (patches extracted by convolution filters) and `fast=False` are both enumerated; NARY maxima are kept as one atom over the pooled window and compared set-wise.",
"P07": "The fine-tuned concretisations over balls (`get_upper_ball_finetune`, `get_lower_ball_finetune`) are unreachable from the public interface (operator precedence makes their test true only for keywords nobody passes) and not claimed.",
"P10": "The Toeplitz matrix of Conv2D is checked on kernels, strides, dilations, paddings and data formats with distinct sizes along width and height.",
"P12": "BackwardConcatenate is the known finding: its weights do not have the shape (inputs, outputs).",
"P13": "`crown_` on nested models passes keyword arguments the callee refuses; not reachable, since conversion flattens nested models (P22, P14).",
"P14": "Graphs: chains, skip connections, several inputs of a merge, shared layers, nested functional and sequential models, several outputs in unusual orders, layers not in topological order, nested models used twice, nested in one another or bearing names of the network, layers shared with a nested model, more than ten layers, convolution, batch normalisation, permutations, pooling. Activations are contracts: `hull_contract` gives for each element two arbitrary lines above and below the ghost. CROWN refuses merges (`NotImplementedError`, `KeyError`): accepted as refusal, under P21.",
"P15": "Works by typestate: BallDomain of unknown radius as the user's domain; `BoxDomain()` made by default anywhere then shows by class.",
"P16": "Each option is compared at the layers run by the converted model (recorded by an event hook on every layer call), not at the constructor call.",
"P17": "ClipAlpha, NonNeg and NonPos are interpreted on an unknown, so a weaker constraint gives values for which a relaxation can be refuted.",
"P20": "Observer over the scenarios of P01, P02, P06, P10-P14, P27: no scenario of its own, so any layer those run is judged.",
"P25": "Boxes are rational points of a cell decomposition: `refine_boxes` is interpreted with the choice of the longest side left open (each order of the sides is a trace).",
"P29": "The graph of the converted model is replayed (layers called again, raw tensor operations recomputed) after `set_domain`.",
"P30": "h and g are judged convex/concave by interpreting the code at three points (given, greater, half-way): monotonicity and midpoint convexity of what is returned in the given pair.",
"P31": "The unknown batch size is a marker: arithmetic or comparisons on it are undecided, `len`, `range` and numpy conversions raise as in a traced function.",
"P32": "`fit` is a havoc of every trainable variable (mapped through its constraint); predictions are sound bounds indexed by the box and by the state of the parameters.",
"P40": "The 100-point search grid is cut to three points (the argument of `linspace`-like constructions is intercepted); the certificate only uses the selection rule, so it does not depend on the number of points. Certificates: see `props/hulls.py` and `props/p40.py`. NaN on degenerate boxes (division of rounding errors) is outside real arithmetic.",
"P44": "The functions are unknown tensors with one more axis than the domain; the oracle is the same functions applied to the ghost outputs, atom for atom. Several outputs and outputs that are not flat are refused with a matrix.",
"P43": "`softmax_to_linear` linearises the layer(s) which end the network when it is a softmax; with several outputs, or a softmax layer object used both inside and last, both readings (bounded before or after) are accepted.",
}
AFTER = """
Parts of claimed properties that are not decided, or not covered:

* float rounding (P41): e.g. forward-hybrid softmax on boxes reduced to a point shows violations of about 0.01 from cancellation; the relaxation itself is
  proved under P03 in real arithmetic.
* serialisation through files (`model.save`, `keras.saving`): P19 covers configurations, not the file round trip.
* functions no public entry point reaches (fine-tuned ball concretisation, `backward_max_` along an axis other than the last, `get_upper_linear_hull_max` with
  collapsed indices, nested models in `crown_`): read, not claimed, since a change there breaks nothing a user can observe.
* `get_model`'s configuration of losses drops options irrelevant to its result.

## Quietness

A check alarms only on an obligation that is refuted (a witness point, a definite exception, a wrong number or shape of tensors) and never on what it cannot
decide. What was done to keep alarms away from code that behaves the same:

* `tools/refactor.py` rewrites a copy of the repository without changing behaviour: every function and method becomes a call of a helper, returned expressions get a
  name, comprehensions become loops, `for` loops are indexed with `enumerate` or become `while`, conditional expressions become statements, branches are inverted,
  comparisons flipped, products swapped, subtractions written as additions, locals renamed, `K.f` fetched by `getattr`. All checks are quiet on the result of
  all steps together (about 9000 lines changed).
* the interpreter itself is exercised on a collection of idioms of the language (decorators, closures, dataclasses, enumerations, named tuples, context managers,
  generators, `match`, properties, exceptions, formatting, container methods, `functools`, `itertools`, `inspect`); what it does not model is Unsupported and
  gives an undecided obligation, listed in the evidence.
* mutation (`tools/mutate.py`) draws changes of operators, constants, arguments and branches all over the package and runs every check which analysed the function
  changed; the survivors are either unreachable, equivalent (in real arithmetic), or led to new rules.
* an earlier conversion of the same network, with another domain, method or options, is part of the scenarios of P15, P16, P23 and P28, so caches keyed too
  coarsely are seen.
"""
