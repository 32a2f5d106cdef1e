#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so that it can be edited readably)."""
import json, os

def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": hook,
        },
    }

G = "groco/groups/group.py"; W = "groco/groups/wallpaper_groups.py"; S = "groco/groups/space_groups.py"
T = "groco/layers/group_transforms.py"; PAD = "groco/layers/padding.py"; PO = "groco/layers/pooling.py"
C2, C3 = "groco/layers/conv2d.py", "groco/layers/conv3d.py"
T2, T3 = "groco/layers/conv2d_transpose.py", "groco/layers/conv3d_transpose.py"
EQ, MI, TM = "groco/utils/equivariance.py", "groco/utils/misc.py", "groco/utils/tensor_manips.py"
CONVS = [C2, C3, T2, T3]

props = [
P("C01", "Each named group is the documented symmetry group and its tables are right",
  "Every implemented group (P1, P2, PMh, PMw, P2MM, P4, P4M in 2D; D4, D4h, O, Oh in 3D) transforms signals by exactly the distinct rotations and reflections of the square or cube that the documentation gives it (PMh/PMw reflect the height/width axis, D4 and D4h keep the third spatial axis as their own), with the identity at index 0. Its composition table and inverses describe exactly what applying its transformations one after the other does to a signal, so the group laws (closure, associativity, identity, inverses) hold on every pair and triple of elements.",
  ["inputs", "programs"], "all implemented groups, all elements, all words in the elements, all signals",
  "Tests check inverse*element=identity and, on one seeded cubic signal, that the table and action are mutually compatible; they never compare a group with the symmetries it is documented to have, check associativity, the derived inverses from both sides, or non-cubic signals.",
  [G, W, S],
  [("Group composition / inverses tables", W), ("Group._compute_composition, _compute_inverses", G), ("P4M_action ... P1_action", W), ("Oh_action", S)],
  [("Group.composition", "index of the product of elements r and c", G), ("Group.inverses", "index of the inverse of each element", G)],
  ["Group.action", "Group.composition", "Group.inverses", "groco.groups.group_dict"]),
P("C02", "Subgroups and cosets mean the same seen from every group",
  "Every implemented group contained in a group G is available as a subgroup of G under its name, and the elements G selects for it are, in order, the very transformations that the group of that name applies on its own. The coset representatives G lists for a subgroup H contain the identity, and the products h.c of an element h of H and a representative c reach every element of G exactly once.",
  ["inputs", "configurations"], "all implemented groups, all ordered pairs (group, subgroup), all signals and chains of nested subgroups",
  "Tests check closure with a predicate that only asks that each listed element occurs among the products, coset sizes, and one seeded signal; they do not check that every contained group is listed, nor nested chains G > H > K.",
  [G, W, S],
  [("subgroup / cosets dictionaries", W), ("subgroup / cosets dictionaries", S), ("_compute_subgroup, _compute_cosets, _external_to_internal_indices", G)],
  [("Group.subgroup", "names of subgroups to element indices", G), ("Group.cosets", "names of subgroups to coset representatives", G)],
  ["Group.subgroup", "Group.cosets", "Group.action"]),
P("C03", "Acting on a grid signal only moves values along the spatial axes",
  "For any signal on a grid whose shape the group leaves unchanged, with any dtype, number and order of extra axes and any position of the spatial axes, acting with a group (or a named subgroup of it) returns one transformed copy per acting element, stacked on the requested new axis; each copy is the corresponding rotation or reflection of the signal about the centre of the grid, every other axis untouched. Values are only moved, never changed, and dtypes are kept.",
  ["inputs", "configurations"], "all signals, shapes (rectangular where the group allows it), dtypes, spatial axis positions, new axis positions, acting subgroups",
  "Tests use square/cubic signals with spatial axes first or right after the batch axis, three positions of the new axis and float data only.",
  [G, W, S], [("Group.action, _action_on_grid", G), ("wallpaper actions", W), ("Oh_action", S)],
  (), ["Group.action(domain_group=None)"]),
P("C04", "Acting on a group signal follows (g.f)(x,h) = f(g^-1 x, g^-1 h)",
  "For any signal on a group or on one of its named subgroups (taken as zero outside the subgroup), on a grid whose shape the group leaves unchanged, acting with the group or a named subgroup gives, for each acting element g, the signal whose value at grid point x and element h is the original value at g^-1 x and g^-1 h, with the new axis and the group axis where the caller asked for them. Acting with g and then h equals acting with the product, and extending a subgroup signal to the whole group keeps its values and is zero elsewhere.",
  ["inputs", "configurations", "programs"], "all groups, domain and acting subgroups, signals, dtypes, axis layouts, sequences of actions",
  "Tests cover domain group = acting group or whole group on one seeded signal with fixed axis layout; the mixed cases (acting and domain subgroups different) are only shape-checked.",
  [G, TM], [("Group.action, _action_on_group, upsample, _composition_flat_indices", G), ("merge_axes, split_axes", TM)],
  (), ["Group.action", "Group.upsample"]),
P("C05", "Group convolutions compute their definition",
  "The output of GroupConv2D and GroupConv3D at grid point x, acting element g and filter o is activation(bias[o] + the sum over kernel offsets, domain elements and input channels of the input times the kernel transformed by g), for a signal on the grid or on the whole group, where g ranges over the group or over the chosen subgroup in that subgroup's order. Strides, dilation and padding mean what they mean for the Keras layer of the same name applied to the (possibly extra zero-padded) input, and the layer stores one kernel and one bias of the size an ordinary layer with the same filters would have on the merged input channels.",
  ["inputs", "configurations"], "all groups and subgroups, both input kinds, batch/spatial/channel/filter sizes, kernel sizes (also non-square where the group allows), strides, dilation rates, paddings, bias on/off, activations, all kernels, biases and inputs",
  "Tests never look at output values, only at shapes and at equivariance on one size; a convolution that is equivariant but wrong (e.g. uses part of the kernel, the wrong kernel orientation, or drops the bias) passes.",
  [C2, C3, T, G], [("GroupTransforms.prepare_call, transform_kernel, repeat_bias, restore_group_axis", T), ("_compute_transformed_kernel_indices", T), ("GroupConv2D.call/build", C2), ("GroupConv3D.call/build", C3)],
  [("_transformed_kernel_indices", "gather indices applying the group to the flattened kernel", T)], ["GroupConv2D.__call__", "GroupConv3D.__call__", "layer.kernel, layer.bias"]),
P("C06", "Group convolutions are equivariant under the acting group",
  "For every GroupConv2D or GroupConv3D that accepts a configuration and input without allow_non_equivariance, transforming the input by any element of the acting group (the group, or the chosen subgroup) and then convolving gives the same as convolving and then transforming the output, on signals on the grid or on the group. This holds for every kernel, bias, activation, kernel size, stride, dilation rate, padding option, image size and data format whose kernel, stride and image shape are themselves unchanged by the group.",
  ["inputs", "configurations"], "all layer configurations, weights and inputs in the stated domain, all acting elements",
  "Tests cover kernel 3, a few strides at size 3, one seed, no dilation, no activation, no even kernels, no rectangular images and only one data-format case at stride 1.",
  [C2, C3, T, PAD, G], [("GroupTransforms", T), ("EquivariantPadding", PAD), ("Group.action", G)],
  (), ["GroupConv2D.__call__", "GroupConv3D.__call__", "Group.action"]),
P("C07", "Transposed group convolutions compute their definition and are equivariant",
  "GroupConv2DTranspose and GroupConv3DTranspose take a signal on the grid or on the chosen subgroup to a signal on the whole group: the result is the Keras transposed convolution of the input with the kernel transformed by each element of the whole group (a kernel on the subgroup counting as zero outside of it), plus bias and activation. For stride 1, and for stride equal to the kernel size with valid padding (plain or equivariant), the layer accepts every image size and is equivariant under the subgroup.",
  ["inputs", "configurations"], "all groups and subgroups, both input kinds, sizes, kernel sizes, weights and inputs, stride 1 with every padding and stride = kernel size with valid padding",
  "Tests use kernel 3 at image size 3 with same padding, and stride 3 only, and never look at values.",
  [T2, T3, T, PAD], [("GroupTransforms (transpose=True)", T), ("EquivariantPadding (transpose=True)", PAD)],
  (), ["GroupConv2DTranspose.__call__", "GroupConv3DTranspose.__call__"]),
P("C08", "Group pooling aggregates windows and cosets exactly and stays equivariant",
  "Group max/average pooling in 1D, 2D and 3D returns for each element h of the (sub)group and each window the maximum or mean over the window and over the elements h.c for the coset representatives c, where strides default to the pool size as in Keras and border cells added by the equivariant padding options count as zeros. In 2D and 3D, every layer that accepts a configuration and input without allow_non_equivariance is equivariant under the subgroup it pools to (the whole group by default).",
  ["inputs", "configurations"], "all groups and subgroups, 1D/2D/3D, max and average, pool sizes, strides including the default, paddings, image sizes, signals including all-negative ones",
  "Tests only run max pooling with pool size 2 and explicit stride 2 on even sizes, where no padding ever happens; average pooling and 1D pooling are never run, values are never checked.",
  [PO, T, PAD], [("GroupPooling.call/build", PO), ("subgroup_pooling, build_pool", T), ("EquivariantPadding", PAD)],
  [("_pooling_indices", "for each subgroup element the members of its coset", T)], ["Group*Pooling*.__call__"]),
P("C09", "Global group pooling is exact and invariant",
  "Global group max/average pooling in 1D, 2D and 3D returns per batch entry and channel the maximum or mean over all grid points and all group elements, with keepdims and data_format placing the reduced axes as in Keras (the group axis kept as size one with keepdims). In 2D and 3D the result does not change when the input is transformed by any group element.",
  ["inputs", "configurations"], "all groups, dimensions, max/average, keepdims, data formats, sizes, signals",
  "Tests only check the output shape of global max pooling for one size and the default options.",
  [PO], [("GlobalGroupPooling.call, pool_group, restore_group_axis", PO)], (), ["GlobalGroup*Pooling*.__call__"]),
P("C10", "Equivariant padding is symmetric, minimal and never silently gives up",
  "With 'valid_equiv' or 'same_equiv', the zeros added on top of Keras's own padding make the total padding equal on both sides of every spatial axis and make the windows end exactly at the border, using the smallest amount that achieves both; no input value is dropped or changed, and if no amount works the layer refuses with a ValueError. With plain 'valid' or 'same' the input is left alone, and the layer refuses with a ValueError exactly when that would leave the total padding uneven or the windows short of the border, unless allow_non_equivariance is set.",
  ["inputs", "configurations"], "all image sizes, kernel/pool sizes, strides (int, tuple or list, isotropic or not), dilation rates, paddings in any letter case, 1D/2D/3D, data formats, for the padding layer itself and inside (non-transposed) convolution and pooling layers",
  "Tests check seven shapes of the stand-alone layer, at kernel size 2 and stride 3; the error path and per-side amounts are never executed.",
  [PAD, T], [("EquivariantPadding.compute_extra_padding, split_padding, build", PAD)],
  [("equivariant_padding", "per axis amounts before/after", PAD)], ["EquivariantPadding.__call__", "layer.__call__ raising ValueError"]),
P("C11", "channels_first layers are channels_last layers on transposed tensors",
  "For every convolution, transposed convolution, pooling and global pooling layer and every configuration, the channels_first layer on a channels_first signal gives the channels_first arrangement of what the channels_last layer with the same weights gives on the same signal, and it accepts and rejects the same configurations. An unspecified data_format means the Keras image data format.",
  ["inputs", "configurations"], "all layers, groups, subgroups, kernel sizes, strides, paddings, dilation rates, sizes, weights, signals, and both settings of the Keras image data format",
  "One test per layer kind runs channels_first at kernel 3, stride 1 and size 3 and checks equivariance only; padding and pooling layers are not run in channels_first inside the layers.",
  [T, PAD, PO] + CONVS, [("data_format handling, group_axis, channels_axis", T), ("split_padding, build", PAD), ("GlobalGroupPooling axes", PO)],
  (), ["all layers' __call__"]),
P("C12", "Calling a layer never changes it, even when the call fails",
  "Any sequence of calls, successful or failing, leaves a layer's weights, weight list, filters and configuration exactly as they were, so that the same input gives the same output at every later time and no call influences another. Weight updates made between calls (assignment, set_weights, loading, training) are what the next call uses.",
  ["histories", "fault_sequences"], "all interleavings of calls on valid inputs, calls that fail before, during or after the convolution, weight updates and shared use of group objects by several layers",
  "Tests call each layer once or twice on the same valid input; a failing call, or reading weights after calls, is never tested.",
  [MI] + CONVS + [T, PO], [("backup_and_restore", MI), ("call", C2)],
  [("kernel, bias, filters", "temporarily replaced during call", C2)], ["layer.weights, layer.kernel, layer.bias, layer.filters", "layer.__call__"]),
P("C13", "Predicted output shapes are the actual output shapes",
  "For every layer and configuration, the output shape predicted symbolically (compute_output_shape, or the shape Keras shows when a model is defined on an Input) equals the shape of the tensor the layer actually returns, with the group axis of the size of the group the output lives on. A functional or sequential model defined on an Input therefore builds and computes the same as applying its layers one after the other to concrete tensors.",
  ["inputs", "configurations", "programs"], "all layers, groups, subgroups, paddings, strides, data formats, batch sizes including unknown, and stacks of layers",
  "Tests only look at shapes of concrete results; compute_output_shape and models defined on an Input are never exercised.",
  CONVS + [T, PO], [("compute_output_shape", C2), ("correct_output_shape", T)], (), ["layer.compute_output_shape", "keras.Model on keras.Input"]),
P("C14", "Layers and models survive a configuration or file round trip",
  "For every layer, rebuilding it from its own configuration and giving it the same weights yields a layer of the same type that computes the same function, and the configuration is serialisable and round-trips to itself. Layers and models can be copied (copy.deepcopy), and models containing the layers can be cloned, saved to a file with or without weights and loaded again with identical outputs.",
  ["inputs", "configurations", "programs"], "all layers and configurations, models composed of them, weights, inputs",
  "No test touches get_config, from_config, cloning or saving.",
  CONVS + [T, PAD, PO], [("get_config", C2), ("get_config", T), ("get_config", PAD), ("get_config", PO)], (), ["layer.get_config / from_config", "keras.models.clone_model", "model.save / load_model"]),
P("C15", "Networks of group layers are equivariant end to end, also after training",
  "A network that stacks group convolutions, group pooling, transposed group convolutions, pointwise activations and (optionally) final global pooling with matching groups is equivariant, and with global pooling invariant, under the smallest group its layers keep, for every weight value. Training steps change only weights, each of which gets a gradient, so the trained network still has this property.",
  ["programs", "inputs", "histories"], "all well-formed stacks of layers, groups narrowing to subgroups along the way, weights, inputs, training histories",
  "One fixed five-layer P4 model with initial weights and one seeded input is tested; no training, no subgroups, no lifting layer, no global pooling.",
  CONVS + [T, PAD, PO, EQ], [("all layers' call", T)], (), ["keras.Sequential / keras.Model call, fit"]),
P("C16", "check_equivariance measures the equivariance error exactly",
  "check_equivariance returns the largest absolute difference between transforming the input before the layer and transforming the output after it, over all acting elements and all entries: zero up to rounding for equivariant layers and the true deviation otherwise. It refuses signals or outputs whose group axis does not have the size of the stated domain or target group.",
  ["inputs", "programs"], "all groups, acting/domain/target groups, layers (equivariant or not), signals, axis layouts",
  "Tests only use it on layers that are equivariant, so a version that always returns a small number passes.",
  [EQ], [("check_equivariance, _act_on_batched_transform, _check_shape", EQ)], (), ["groco.utils.check_equivariance"]),
P("C17", "Axis merging and splitting helpers are exact inverses",
  "Merging one axis into another puts the merged axis in front of the target axis and flattens the two, splitting undoes it, moving an axis to the left of another keeps the order of all other axes, and gathering a flattened tensor at the index tensor gives the tensor back; shapes computed on their own agree with the shapes of the tensors, including with an unknown batch size. No value is lost, duplicated or changed.",
  ["inputs"], "all tensors, ranks, axis pairs (both orders), sizes, dtypes",
  "The helpers have no tests of their own.",
  [TM], [("merge_axes, split_axes, move_axis_to_left_of, get_index_tensor, merge_shapes, split_shapes, format_batch_dim", TM)], (), ["groco.utils.*"]),
P("C18", "Wrong groups, signals and options are refused, not computed with",
  "A layer refuses, with an exception and before returning any output, an unknown group or subgroup name, a subgroup that the group does not contain, an unknown padding option, and any signal whose group axis does not have the size the layer works on, both when it is first used and on every later call. Every configuration within the documented options is accepted, in every way Keras accepts it (ints, tuples or lists; any letter case of padding names).",
  ["inputs", "configurations", "histories"], "all layers, groups, subgroups, option spellings, signals of any group-axis size, on the first and on later calls",
  "No test exercises a refusal.",
  [T, PAD, PO] + CONVS + [G], [("build assertion, group_dict lookup", T), ("format_padding_option", PAD), ("input_spec", C2)], (), ["layer constructors and __call__"]),
P("C19", "Keras options carry over and the trivial group gives the plain Keras layer",
  "With the group P1, the 2D convolution, transposed convolution, pooling and global pooling layers compute exactly what the Keras layer of the same name computes with the same options, weights and inputs, up to the extra group axis of size one. For every group, layer options such as use_bias, activation, initialisers, regularisers, constraints, trainable, name and dtype act as in Keras, and a group may equally be given by name, by object or through the ready-made constructors.",
  ["inputs", "configurations"], "all layers and Keras options accepted by them, all groups, spellings of the group, weights, inputs, dtype policies",
  "Tests never compare with a Keras layer, never use activation/regulariser/dtype options, and never use the ready-made constructors or group names.",
  CONVS + [T, PO, PAD], [("GroupConv2D.__init__", C2), ("P4MConv2D ... partials", C2), ("GroupPooling.__init__", PO)], (), ["all layers"]),
P("C20", "A layer gives the same answer however it is called",
  "The result for a batch (of any size, also zero) is the stack of the results for its entries, compiled (jit) execution gives the same result as eager execution, and a convolution or pooling layer that was first used on one image size gives on any other image size exactly what a fresh layer with the same weights gives there, including refusing sizes where equivariance cannot be kept. A layer used at several places of a model, or for every step of a sequence by Keras' TimeDistributed, gives there what it gives alone.",
  ["inputs", "histories", "configurations"], "all layers, configurations, batches, sequences of image sizes, eager and compiled calls",
  "Tests use one size per layer instance, batch size one or two, eager only.",
  [PAD, T] + CONVS + [PO], [("EquivariantPadding.build/call", PAD), ("prepare_call", T)], [("equivariant_padding, needs_padding", "amounts fixed at build", PAD)], ["layer.__call__", "jax.jit(layer)", "model.predict"]),
P("C21", "Layers commute with translations combined with group elements",
  "For every convolution, transposed convolution and pooling layer that keeps equivariance, and every signal whose content stays away from the border of the image, moving the signal by an element of the acting group followed by a translation of any whole number of output cells moves the output in the same way: the symmetry kept is the full wallpaper or space group, not just its point group. Global pooling layers give the same result for the moved signal.",
  ["inputs", "configurations"], "all layers, groups, subgroups, strides, dilations, paddings, weights, signals with a margin, combinations of an acting element and a translation",
  "No test translates a signal: a layer that treats one part of the image differently from another in a symmetric way passes all of them.",
  CONVS + [T, PAD, PO, G], [("GroupTransforms", T), ("EquivariantPadding", PAD), ("GroupPooling", PO), ("Group.action", G)], (), ["layer.__call__", "Group.action"]),
P("C22", "Groups derived from a parent are the same groups",
  "Group(name, order, parent=P), for a name among P's subgroups and also in several steps, is in every respect the group of that name: it acts on grid signals (of a shape that the parent leaves unchanged) and on group signals in the same way and order, has the same composition and inverses, has all contained groups as subgroups with complete sets of coset representatives that include the identity, and can be given to layers in place of the ready-made group.",
  ["inputs", "configurations", "programs"], "all pairs and chains of groups and subgroups, signals, axis layouts, layers using the derived group",
  "Tests only cover the ready-made groups, some of which happen to be derived from one fixed parent.",
  [G], [("_compute_composition, _compute_inverses, _compute_action, _compute_subgroup, _compute_cosets", G)], [("Group.parent", "the group the tables are derived from", G)], ["groco.groups.Group", "layer(group=...)"]),
P("C23", "Threads do not disturb each other's calls",
  "Once a layer, model or group has been used, it can be used from several threads at once: whatever the interleaving of their calls (eager, compiled or symbolic, successful, refused or failing half way), every call returns what it returns alone, its weights, configuration and output shape read in the meantime are the right ones, every call comes to an end, and afterwards the layer has its own weights and settings.",
  ["schedules", "inputs", "configurations", "histories"], "all layers, groups and networks, numbers of threads, sequences of operations per thread, interleavings",
  "All tests are single-threaded; which interleavings occur is up to chance.",
  CONVS + [MI, T, PO], [("backup_and_restore, exclusive", MI), ("GroupConv2D.call", C2)], [("kernel, bias, filters", "replaced by their transformed versions during a call", C2)], ["layer.__call__ in several threads"]),
P("C24", "A user's own group works like the ready-made ones",
  "For every group of symmetries of the square or cube that a user defines by its tables and its action on the grid, with the elements, subgroups and coset representatives in any order, Group acts on signals on the grid and on subgroups, extends signals by zero, derives subgroups and computes inverses accordingly, and every convolution, transposed convolution and pooling layer given that group and any of its subgroups computes the documented function for it and is equivariant.",
  ["configurations", "inputs"], "all 10 + 98 groups of symmetries of the square and cube, orders of their elements, named subgroups, coset representatives, layers and options, signals",
  "Tests use the eleven ready-made groups in their one order only.",
  [G, T, EQ] + CONVS + [PO], [("Group.__init__, _compute_*", G), ("GroupTransforms.__init__", T)], [("composition, inverses, subgroup, cosets", "the user's tables", G)], ["groco.groups.Group", "layer(group=...)"]),
P("C25", "Layers are functions of input and weights for every JAX transformation",
  "Under vmap, map, scan, jit, rematerialisation, forward and reverse mode differentiation, and with other weights passed in by stateless_call, every layer computes what it is defined to compute: mapped calls give the stack of the single calls, passed weights are used in place of the stored ones, and derivatives for the input and every weight are those of the definition. None of this changes the layer.",
  ["inputs", "configurations", "programs"], "all layers, configurations, inputs, weights, transformations and their combinations",
  "Tests call layers eagerly, apart from the training of Keras' fit on one model whose result is not checked.",
  CONVS + [T, PO, PAD, MI], [("GroupTransforms.prepare_call, restore_group_axis", T), ("GroupPooling.call", PO), ("eager_scope", MI)], (), ["layer.__call__", "layer.stateless_call", "jax.vmap / grad / jvp / lax.scan"]),
P("C26", "Results do not depend on the Keras backend",
  "On Keras' NumPy backend, as on JAX, groups act on signals, and every layer, random network, padding, pooling, saved configuration, predicted shape and check_equivariance gives the documented result (up to rounding), accepts and refuses the same inputs and keeps its weights; nothing relies on operations or index conventions of one backend, and, arrays there being mutable and shared between views, nothing writes into the signals a caller passes in.",
  ["configurations", "inputs", "histories"], "all groups, layers, configurations, signals and histories of the other properties, on a second backend",
  "Tests run on whichever one backend is configured, with the few inputs they have; nothing compares backends or looks at the caller's arrays afterwards.",
  [G, W, S] + CONVS + [T, PO, PAD, EQ, TM, MI], [("Group.action, upsample", G), ("GroupTransforms", T), ("GroupPooling.call", PO), ("eager_scope", MI), ("merge_axes, split_axes", TM)],
  [("KERAS_BACKEND", "which backend Keras uses", "environment")], ["Group.action", "layer.__call__", "check_equivariance", "arrays passed by the caller"]),
]

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props), "properties")
