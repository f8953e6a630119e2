#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table below (development tool, not a check)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/decomon/"
CONC = "Tests compare bounds with numpy on a handful of sampled boxes and weights; the guarantee quantifies over every weight, bound and point of the domain."
CONF = "Tests run a few option combinations; the guarantee is over every combination of options, layer kinds and graph shapes."

# id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)]
P = [
 ("P01", "Forward bounds of affine layers enclose the layer and add no looseness",
  "Whatever valid bounds describe the input of a Dense, Conv2D, BatchNormalization, Flatten, Reshape, Permute or Dropout layer, the bounds computed for its output (constant and affine, in every forward mode) enclose what the Keras layer computes on every enclosed input. When the input bounds are exact the output bounds are exact too: these layers add no looseness.",
  ["inputs", "configurations"], "all weights, bounds, points of the domain; layer options, forward modes, tensor ranks", CONC,
  ["layers/decomon_layers.py", "layers/decomon_reshape.py", "layers/core.py", "layers/convert.py"], [("weights split by sign", "layers/decomon_layers.py:DecomonDense.call"), ("same rearrangement of every bound", "layers/decomon_reshape.py")]),
 ("P02", "Forward bounds of merging layers enclose the merged value",
  "Whatever valid bounds describe the inputs of an Add, Subtract, Average, Maximum, Minimum, Multiply, Concatenate or Dot layer, the bounds computed for its output (constant and affine, in every forward mode) have the shape of the layer's output and enclose the value the Keras layer computes on every combination of enclosed inputs. Add, Subtract, Average and Concatenate add no looseness to exact input bounds.",
  ["inputs", "configurations"], "all bounds and enclosed values; number of inputs, axes, ranks, forward modes", CONC,
  ["layers/decomon_merge_layers.py", "utils.py", "layers/utils.py"], [("pairwise propagation", "layers/decomon_merge_layers.py"), ("operations on bounds", "utils.py")]),
 ("P03", "Relaxations of activations are sound on every interval",
  "For relu, softplus, exponential and the elementwise exp, log and 1/x used to build softmax, the affine bounds used on an interval lie above and below the function over that whole interval, for every relaxation slope option, and compose correctly with the affine bounds of the activation's input. Constant output bounds enclose the image of the input interval, for these functions, for sigmoid, tanh and softsign, and for softmax.",
  ["inputs", "configurations"], "all intervals (positive, negative, crossing zero), slopes, forward modes", CONC,
  ["layers/activations.py", "layers/utils.py", "utils.py"], [("linear hull of relu", "utils.py:get_linear_hull_relu"), ("tangent and chord", "utils.py:get_linear_softplus_hull")]),
 ("P05", "Operations on bounds enclose the operation on every enclosed value",
  "Each library operation on bounds (sum, difference, opposite, maximum, minimum, product, square, relu, absolute value, sort, max/min/sum along an axis, split, broadcast, permutation, expansion) returns bounds enclosing the corresponding tensor operation applied to any enclosed operands, in every forward mode and along any axis. Operations affine in their operands add no looseness.",
  ["inputs", "configurations"], "all bounds, enclosed operands, axes, ranks, forward modes", CONC,
  ["utils.py", "layers/utils.py"], [("operations", "utils.py"), ("operations", "layers/utils.py")]),
 ("P06", "Forward max pooling encloses the pooled value",
  "Whatever valid bounds describe the input of a MaxPooling2D layer, the bounds computed for its output enclose, position by position, the value the Keras layer computes on every enclosed input, for every supported pool size, stride, padding and data format, in every forward mode.",
  ["inputs", "configurations"], "all bounds and enclosed inputs; pool sizes, strides, data formats, modes", CONC,
  ["layers/maxpooling.py", "layers/utils_pooling.py"], [("patch extraction filters", "layers/maxpooling.py"), ("hull of the maximum", "layers/utils_pooling.py")]),
 ("P07", "Concretising an affine bound gives its extremum over the domain",
  "The upper (lower) value the perturbation domain returns for an affine function is exactly its maximum (minimum) over the domain, for boxes and for L1, L2 and L-infinity balls, whatever the weights, biases, centre, corners and radius and whatever the rank of the output.",
  ["inputs", "configurations"], "all affine functions and domains; ranks", CONC,
  ["core.py"], [("box corners by sign of the weights", "core.py:get_upper_box"), ("dual norm", "core.py:get_upper_ball")]),
 ("P08", "Constant bounds are tightened, never lost, when expanding bounds of a mode",
  "When the bounds stored for a mode are expanded to the full set, the constant bounds are those given by the user of the mode, or the concretised affine bounds, or when both exist and tightening is requested the better of the two for each value; they always enclose the same value and upper and lower bounds are never exchanged or shared, for one input or for several inputs to merge.",
  ["inputs", "configurations"], "all bounds, modes, flags, numbers of merged inputs", CONC,
  ["core.py"], [("expansion of the inputs of a mode", "core.py:InputsOutputsSpec.get_fullinputs_from_inputsformode"), ("expansion for merging", "core.py:InputsOutputsSpec.get_fullinputs_by_type_from_inputsformode_to_merge")]),
 ("P09", "Every producer and consumer agrees on the tensors exchanged in a mode",
  "In each forward mode, with or without difference-of-convex tensors, the number, order and shapes of the tensors used to describe bounds are the same for every function that packs, unpacks, splits or converts them, so that packing what was unpacked gives back the same tensors.",
  ["configurations"], "forward modes, difference-of-convex flag, numbers of inputs", CONF,
  ["core.py", "models/utils.py"], [("packing", "core.py:InputsOutputsSpec"), ("conversion between modes", "models/utils.py:Convert2Mode")]),
 ("P10", "Backward propagation through affine layers is exact",
  "For Dense, Conv2D, BatchNormalization, Flatten, Reshape, Permute, Dropout and linear activation layers, and input layers, the affine map computed by backward propagation has shape (flattened input, flattened output) and, applied to any flattened input, gives exactly the flattened output of the Keras layer, for upper and lower bounds, in every mode, and whether the backward layer is built from the Keras layer or from its forward counterpart.",
  ["inputs", "configurations"], "all weights and inputs; layer options, data formats, modes", CONC,
  ["backward_layers/backward_layers.py", "backward_layers/utils_conv.py", "backward_layers/utils.py"], [("Toeplitz matrix", "backward_layers/utils_conv.py:get_toeplitz"), ("permutation of the identity", "backward_layers/backward_layers.py")]),
 ("P11", "Backward propagation through activations is sound",
  "For every supported activation, slope option and mode, the affine functions returned by backward propagation bound the activation's output from above and below for every input inside the bounds provided, and the upper and lower functions are never exchanged.",
  ["inputs", "configurations"], "all intervals, slopes, modes, enclosed inputs", CONC,
  ["backward_layers/activations.py", "backward_layers/utils.py", "backward_layers/backward_layers.py"], [("backward activations", "backward_layers/activations.py"), ("hulls", "backward_layers/utils.py")]),
 ("P12", "Backward propagation through merging layers is sound for each input",
  "For each input of an Add, Subtract, Average, Maximum, Minimum, Multiply or Concatenate layer, the affine bounds that backward propagation expresses in terms of that input enclose the merged value for every value of the other inputs within their bounds.",
  ["inputs", "configurations"], "all bounds and enclosed inputs; number of inputs, ranks, modes", CONC,
  ["backward_layers/backward_merge.py", "backward_layers/utils.py"], [("backward merges", "backward_layers/backward_merge.py"), ("primitives", "backward_layers/utils.py")]),
 ("P13", "Composing affine bounds keeps them sound",
  "Composing backward bounds with those of the layer below, summing the contributions of several outputs, concretising affine bounds to constants and converting bounds from one mode to another all return bounds enclosing the same network output, whatever the weights, and add no looseness beyond replacing each enclosed value by its bound.",
  ["inputs", "configurations"], "all weights, biases and enclosed values; diagonal or full weights, modes, domains", CONC,
  ["models/backward_cloning.py", "models/crown.py", "models/utils.py", "backward_layers/utils.py"], [("composition", "models/crown.py:MergeWithPrevious"), ("fusion of outputs", "models/crown.py:Fuse"), ("mode conversion", "models/crown.py:Convert2BackwardMode")]),
 ("P14", "A converted model bounds the original network, whatever the method",
  "For every conversion method and every final mode, the bounds returned by the converted model on a box enclose the outputs of the original Keras network on every point of the box, including networks with shared layers, nested models, several activations and branches where the method supports them.",
  ["inputs", "programs", "configurations"], "all weights and points of the box; conversion methods, final modes, network graphs", CONC,
  ["models/convert.py", "models/forward_cloning.py", "models/backward_cloning.py", "models/utils.py"], [("conversion", "models/convert.py:clone"), ("forward pass", "models/forward_cloning.py"), ("backward pass", "models/backward_cloning.py:crown_")]),
 ("P15", "The user's perturbation domain is the one used everywhere",
  "When a network is converted for a given perturbation domain, every place of the converted model where an affine function of the network input is turned into constants uses that domain, for every layer kind and conversion method: no other domain or default domain is ever substituted.",
  ["programs", "configurations"], "layer kinds, operations, conversion methods, domains", CONF,
  ["models/convert.py", "layers/core.py", "backward_layers/core.py", "layers/utils.py", "utils.py"], [("domain passed to layers", "models/forward_cloning.py"), ("domain passed to operations", "layers/utils.py")]),
 ("P16", "Conversion options reach every layer they concern",
  "The options given at conversion (mode, relaxation slope, fine-tuning flags, sharing, difference of convex) are the ones held by every layer of the converted model they concern, in forward and backward passes, including layers of nested models and activations split out of a layer.",
  ["programs", "configurations"], "conversion options, layer kinds, conversion methods", CONF,
  ["models/convert.py", "models/forward_cloning.py", "models/backward_cloning.py", "layers/convert.py", "backward_layers/convert.py"], [("options threading", "models/convert.py:clone")]),
 ("P17", "Any admissible fine-tuning parameter keeps the bounds sound",
  "Fine-tuned relaxations remain sound for every value of their trainable parameters allowed by the constraints attached to them, and every trainable relaxation parameter carries such a constraint.",
  ["inputs", "configurations"], "all admissible parameter values, intervals, activations", CONC,
  ["layers/activations.py", "layers/decomon_layers.py", "backward_layers/activations.py", "backward_layers/backward_layers.py", "keras_utils.py"], [("constraints on parameters", "layers/decomon_layers.py:DecomonActivation.build")]),
 ("P18", "Freezing, unfreezing and resetting act on the whole converted model",
  "Freezing or unfreezing the weights or the fine-tuning parameters of a converted model reaches every layer holding such variables and leaves the others alone; unfreezing after freezing restores the trainable state, and resetting fine-tuning restores the initial relaxation parameters.",
  ["histories", "configurations"], "sequences of freeze/unfreeze/reset calls, layer kinds", CONF,
  ["models/models.py", "layers/core.py", "layers/decomon_layers.py", "backward_layers/core.py", "backward_layers/backward_layers.py"], [("freezing", "models/models.py:DecomonModel")]),
 ("P19", "Configurations list every constructor argument",
  "A layer, domain or model holds the options its constructor was given, and the configuration it reports contains every option its constructor needs, with the value currently held, so that rebuilding a layer or a domain from its configuration gives one with the same options.",
  ["configurations"], "every layer class and option value", CONF,
  ["layers/core.py", "layers/decomon_layers.py", "backward_layers/core.py", "backward_layers/backward_layers.py", "models/crown.py", "models/utils.py", "core.py"], [("get_config", "layers/core.py:DecomonLayer.get_config")]),
 ("P20", "Declared output shapes are the shapes computed",
  "For every layer of the library and every supported mode, the output shapes a layer declares for given input shapes are the shapes of the tensors it computes.",
  ["configurations"], "layer kinds, options, modes, input shapes", CONF,
  ["layers/core.py", "layers/decomon_layers.py", "layers/decomon_reshape.py", "layers/decomon_merge_layers.py", "backward_layers/core.py", "models/utils.py", "models/crown.py"], [("compute_output_shape", "layers/core.py")]),
 ("P21", "What is not supported is rejected, never silently approximated",
  "Layer kinds, activations, norms, methods, slopes, paddings and options the library does not support raise an error at conversion or call; none of them silently yields bounds of another function.",
  ["configurations", "programs"], "unsupported options and layer kinds", CONF,
  ["layers/convert.py", "backward_layers/convert.py", "layers/activations.py", "backward_layers/activations.py", "core.py", "models/utils.py"], [("dispatch", "layers/convert.py:to_decomon")]),
 ("P22", "Converting a network leaves the user's network untouched",
  "Conversion, with any method and options, changes nothing observable in the Keras network given by the user: its layers, their names, activations, configuration, weights, trainability and outputs are the same afterwards.",
  ["programs", "configurations"], "networks, conversion methods and options", CONF,
  ["models/convert.py", "models/forward_cloning.py", "models/utils.py", "layers/convert.py", "layers/utils.py"], [("preprocessing clones", "models/convert.py:preprocess_keras_model")]),
 ("P23", "The conversion method determines the passes and the mode of the result",
  "Each conversion method name runs exactly the passes it names (forward and/or backward, in constant, affine or both kinds of bounds), and the converted model reports and returns the kinds of bounds the method and the requested final flags imply, with a valid converted model for each accepted combination.",
  ["configurations"], "methods, final flags, letter case of method names", CONF,
  ["models/utils.py", "models/convert.py", "core.py"], [("method tables", "models/utils.py:get_ibp_affine_from_method")]),
 ("P24", "Every layer and activation is bounded by its own counterpart",
  "A Keras layer or activation is always converted to the bounding counterpart of that same layer or activation, forward and backward, with the same hyper-parameters, and its lookup by name, function or configuration gives the same result.",
  ["configurations", "programs"], "layer kinds, activation names, hyper-parameters", CONF,
  ["layers/activations.py", "backward_layers/activations.py", "layers/convert.py", "backward_layers/convert.py"], [("dispatch by name", "layers/convert.py"), ("activation tables", "layers/activations.py:deserialize")]),
 ("P25", "Splitting a query in batches or sub-boxes does not change what is bounded",
  "The robustness and range queries return one result per requested box, in order, and computed from that box and its labels, whatever the batch size; when boxes are refined, the sub-boxes cover exactly the original box and the merged result bounds the network over the whole box.",
  ["inputs", "configurations"], "numbers of boxes, batch sizes, sub-box counts, norms, boxes", CONC,
  ["wrapper.py"], [("batch slices", "wrapper.py:get_adv_box"), ("box refinement", "wrapper.py:refine_boxes")]),
 ("P26", "Robustness scores and range queries are sound",
  "The range queries return bounds enclosing the network's outputs over the requested box or ball, and a robustness score is at least the largest margin, over the domain, of a target output above a source output, so that a negative score proves the absence of adversarial examples; targets and sources are never exchanged.",
  ["inputs", "configurations"], "all networks outputs, boxes, labels, kinds of bounds", CONC,
  ["wrapper.py", "metrics/metric.py"], [("score from bounds", "wrapper.py:get_adv_box"), ("range", "wrapper.py:get_range_box")]),
 ("P27", "Losses and metrics read the bounds of the model they are built for",
  "The losses, metric layers and robust-radius models unpack the outputs of a converted model in the order and mode that model produces them and compute their value from upper bounds where an upper bound is needed and lower bounds where a lower bound is needed, evaluating affine bounds on the perturbation domain of that model: the losses bound the quantity they name, with the source and target labels in their own roles, for every label mask.",
  ["inputs", "configurations"], "modes, bounds, labels", CONC,
  ["metrics/loss.py", "metrics/metric.py"], [("packing of outputs", "metrics/loss.py:get_model"), ("metric layers", "metrics/metric.py")]),
 ("P28", "Converted layers use the weights of the original layer",
  "A converted layer computes its bounds with the weights of the Keras layer it was built from: shared when sharing is requested and copied otherwise, each weight to its own role, and every use of a shared Keras layer uses the same weights.",
  ["programs", "configurations", "histories"], "layer kinds, sharing options, sequences of weight updates", CONF,
  ["layers/core.py", "layers/convert.py", "layers/decomon_layers.py", "backward_layers/backward_layers.py", "keras_utils.py"], [("weight sharing", "layers/core.py:DecomonLayer.share_weights"), ("weights by attribute name", "layers/core.py:DecomonLayer.reset_layer")]),
 ("P29", "Changing the domain of a converted model changes it everywhere",
  "After the perturbation domain of a converted model is replaced, every computation of the model that depends on the domain uses the new one; a replacement that the model cannot honour is refused.",
  ["histories", "configurations"], "conversion methods, domains, sequences of replacements", CONF,
  ["models/models.py", "layers/core.py", "backward_layers/core.py", "core.py"], [("set_domain", "models/models.py:DecomonModel.set_domain")]),
 ("P30", "Difference-of-convex decompositions sum to the value bounded",
  "When the difference-of-convex decomposition is asked for, every layer and primitive that supports it returns h convex and g concave in the network input, with h + g equal to the value it bounds, given inputs of the same kind; what does not support it raises.",
  ["inputs", "configurations"], "all values, weights and decompositions; layer kinds, modes, options", CONC,
  ["layers/decomon_layers.py", "layers/utils.py", "layers/activations.py", "utils.py", "layers/decomon_merge_layers.py", "layers/maxpooling.py", "layers/decomon_reshape.py"], [("relu decomposition", "layers/activations.py:relu"), ("convolution with signed kernels", "layers/decomon_layers.py:DecomonConv2D.call")]),
 ("P31", "The batch plays no role",
  "The bounds of an element of a batch depend on that element only, and every layer returns them whatever the size of the batch, also when it is unknown because the layer is traced (predict, fit, saved graphs).",
  ["inputs", "configurations"], "all values and batches; layers, options, modes", CONC,
  ["keras_utils.py", "backward_layers/backward_layers.py", "layers/decomon_layers.py", "layers/utils.py", "backward_layers/utils.py", "metrics/loss.py"], [("batched identity", "keras_utils.py:BatchedIdentityLike"), ("batched diagonal", "keras_utils.py:BatchedDiagLike")]),
 ("P32", "Tuned queries never give looser nor unsound bounds and leave the model as it was",
  "The queries that fine-tune the relaxations for given boxes return one bound per box and output, sound and at least as tight as the untuned and the tuned bounds of that box, whatever values training gives the relaxation parameters; they train no weight of the network, train for the bound asked for on the boxes asked for, and restore the parameters afterwards.",
  ["inputs", "histories"], "all boxes, bounds and parameter values reached; batch sizes, sub-boxes, conversion methods", CONC,
  ["wrapper_with_tuning.py", "wrapper.py", "metrics/loss.py", "models/models.py"], [("tightest of both bounds", "wrapper_with_tuning.py:get_upper_box_tuning"), ("reset", "models/models.py:DecomonModel.reset_finetuning")]),
 ("P40", "Affine relaxation of s-shaped activations is sound",
  "The affine bounds used for sigmoid, tanh and softsign lie above and below the function on the whole input interval, however wide, narrow or placed it is (on either side of 0, across it, starting or ending in it, reduced to a point), in forward and in backward propagation.",
  ["inputs"], "all intervals", CONC, ["utils.py", "layers/activations.py", "backward_layers/activations.py"], [("tangent search", "utils.py:get_t_upper"), ("choice of the line", "utils.py:get_linear_hull_s_shape")]),
 ("P43", "A network ending with a softmax is bounded before it",
  "Converting a network whose last layer is a softmax (dense option, activation layer, Softmax layer; functional, sequential or nested) gives bounds that enclose the value computed before that softmax for every input of the domain; only that softmax is left out, the ones used inside the network are bounded as softmax or refused.",
  ["inputs", "configurations"], "all boxes and weights; enumerated networks and conversion methods", CONC, ["layers/utils.py", "models/convert.py", "models/forward_cloning.py", "models/backward_cloning.py"],
  [("softmax left out", "layers/utils.py:softmax_to_linear"), ("preprocessing keeps it", "models/convert.py:_clone_keras_model")]),
 ("P44", "Bounds of affine functions of the outputs given at conversion",
  "When affine functions of the outputs are given at conversion (a matrix, or pairs of upper and lower functions), the bounds of the converted model enclose these functions of the outputs of the network for every input of the domain and every function given, with every conversion method, or the conversion is refused; robustness scores computed on such a model are at least the margin of every target over every source, and equal to it for exact bounds on a point.",
  ["inputs", "configurations"], "all boxes, weights and functions; enumerated networks and conversion methods", CONC, ["models/convert.py", "models/backward_cloning.py", "models/crown.py", "wrapper.py"],
  [("back_bounds at conversion", "models/convert.py:clone"), ("start of the backward pass", "models/backward_cloning.py:get_backward_model"), ("scores of such models", "wrapper.py:get_adv_box")]),
 ("P41", "Bounds survive floating-point rounding",
  "The bounds computed in floating point enclose the network outputs computed in floating point, up to the documented tolerance.",
  ["inputs"], "all networks and boxes", CONC, ["core.py", "utils.py"], [("epsilon guards", "utils.py")]),
]

NA = {
 "P41": "quantifies over rounding errors of float32 kernels; the analysis works in real arithmetic and does not model them",
}

TECH = {}
NOTE = {}
DEF_TECH = "abstract interpretation of the source (interprocedural, polynomial/sign domain)"
DEF_NOTE = ("For the enumerated configurations, ranks and small sizes, every element value is symbolic: proved obligations hold for all reals. "
            "Trusts the transfer functions of Keras layers and keras.ops under sa/; real arithmetic; undecided obligations are listed in the evidence and raise no alarm.")


def main():
    claimed = []
    na = []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for pid, title, st, over, text, why, files, mech in P:
            assert len(title) <= 80, title
            f.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                                "anchors": {"files": [S + x for x in files], "mechanism": [{"name": a, "where": S + b} for a, b in mech], "hook_needed": None}}) + "\n")
            if os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")) and pid not in NA:
                claimed.append(pid)
            else:
                na.append({"property": pid, "reason": NA.get(pid, "no check built yet")})
    m = {"version": 1, "setup_cmd": "true", "checks": [
        {"property": p, "quick_cmd": f"python3-vt check.py {p} --tier quick", "thorough_cmd": f"python3-vt check.py {p} --tier thorough",
         "evidence_file": f"evidence/{p}.json", "technique": TECH.get(p, DEF_TECH), "level": "other", "level_note": NOTE.get(p, DEF_NOTE)} for p in claimed],
        "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(claimed), "claimed", [x["property"] for x in na])


main()
