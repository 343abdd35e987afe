#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1]} for s in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
TEN=["include/tensor.hpp","include/tensor.tcc"]
OP="include/operation.hpp"

p("T01","Tensor functions never modify their operands; copies are independent",
 "A tensor function or arithmetic operator that returns a new tensor leaves every element and the shape of all its operands unchanged, and later writes to a result of arithmetic never show up in an operand. Copy construction and assignment share storage, while copy() and deep_copy() give a tensor whose contents are from then on independent of the original; only the in-place members (reset, map, resize, reshape, +=, -=, *=, /=) change their object.",
 ["inputs","histories"],"every tensor function of the library, every operand shape combination it accepts (equal shapes included) and every history of copies and in-place writes over a set of tensors",
 "Tests print or compare one result of one call; none looks at the operands afterwards, and aliasing shows only on particular shape pairs and on later writes.",
 TEN,[("shared vector_ pointer and deep_copy","include/tensor.hpp"),("add/minus/elementwise_product and friends","include/tensor.tcc")],
 [("tensor::vector_","shared storage of a tensor and its shallow copies")],["operand snapshots around every call"])
p("T02","Tensor shape, size and row-major element order stay consistent",
 "After any sequence of constructions, copies, resizes, reshapes (with -1 as the trailing dimension meaning 'whatever is left'), slices and assignments, a tensor's size is the product of its shape, its ndim is the length of its shape, iteration in each direction visits exactly its elements in row-major order, and reshape to the same element count keeps element order. Resizing to another element count gives fresh storage of the new shape (contents unspecified). Index views over the data (1-D to 4-D views) address the same row-major elements.",
 ["inputs","histories"],"every shape and every sequence of shape-changing operations",
 "Tests construct a few fixed shapes and check single operations, not sequences.",
 TEN+["include/utils/view.hpp"],[("resize/reshape/slice","include/tensor.hpp"),("view","include/utils/view.hpp")])
p("T03","Tensor arithmetic broadcasts exactly as documented and computes each element",
 "Adding, subtracting, multiplying elementwise or dividing tensors and scalars yields, for every output index, exactly the operation on the corresponding operand elements, where operands of unequal shape are broadcast along leading or unit dimensions; the order of operands is respected for the non-commutative operators. Unary minus and scalar forms follow the same rule.",
 ["inputs"],"all shape pairs the library accepts, all values, float and double",
 "The element loops depend on the shape pair; tests use a handful of 2-D shapes and positive values.",
 TEN,[("broadcasting add/minus/elementwise_product/elementwise_divide","include/tensor.tcc")])
p("T04","Matrix multiplication is the mathematical product for every size and layout",
 "Multiplying two matrices (as tensors, or through the raw gemm entry point with any of the four transpose combinations) gives, up to rounding, sum over k of a(i,k)*b(k,j) for every shape including degenerate 1xN, Nx1 and sizes around the block boundaries, reads or writes nothing outside its operands, and the native and BLAS-backed back ends agree.",
 ["inputs","configurations"],"all matrix sizes and transpose flags, both built-in back ends, serial and threaded loops",
 "Tests multiply a few fixed sizes in one configuration.",
 ["include/backend/cblas.hpp","include/backend/backend.hpp","include/tensor.tcc"],[("gemm dispatch and native loops","include/backend")])
p("T05","Tensor reductions and statistics equal their definitions",
 "sum, mean, max, min, standard deviation and other reductions of a tensor, whole or along one axis with or without kept dimensions, equal the textbook reduction over exactly the elements along that axis, up to rounding, for values of any sign; the reduced shape is the input shape with that axis removed or set to one. The softmax of a tensor normalises the exponentials of each row along its last axis to sum one, to the precision of the element type.",
 ["inputs"],"all shapes, all axes (including the default one meaning 'everything'), both keep-dimension settings, all value ranges",
 "Tests check a few positive or fixed arrays; sign-dependent and axis-dependent errors are missed.",
 TEN,[("sum/mean/max/min/reduce along axis","include/tensor.tcc")])
p("T06","Data-movement tensor functions place every element where specified",
 "concatenate, repeat, repmat/tile, broadcast, squeeze, transpose-like and other data-movement functions neither lose, duplicate nor misplace elements: each output element is the input element that its index designates, for every axis and multiplicity.",
 ["inputs"],"all shapes, axes and multiplicities accepted by the functions",
 "A misplaced element appears only for some axis/shape combination; tests fix one.",
 TEN,[("concatenate/repeat/repmat/squeeze","include/tensor.tcc")])
p("T07","Fill and random generators respect shape, bounds and reproducibility",
 "zeros, ones, empty/zeros/ones-like, linspace and the random generators return tensors of exactly the requested shape, filled with the requested value (linspace: points evenly spaced from start to stop, for any number of points); uniform samples lie within their bounds, truncated samples within their truncation interval, normal samples have the requested mean and deviation within statistical error, and reseeding the generator reproduces the same sequence.",
 ["inputs","histories"],"all shapes, all bounds, all seeds",
 "Tests print samples; bounds and distribution need many draws.",
 TEN+["include/config.hpp"],[("random/randn/truncated_normal/glorot","include/tensor.tcc")])
p("T08","Saved tensors load back bit-identical",
 "Writing a tensor of float, double or integer elements to a file and loading it back returns a tensor of the same shape with every finite value bit-identical, for values of any magnitude and sign; writing does not change the tensor.",
 ["inputs"],"all shapes and all finite values incl. denormals, extremes and negative zero",
 "The only test round-trips friendly random values with a tolerance.",
 TEN,[("save_tensor/load_tensor/read_tensor/write_tensor","include/tensor.tcc")])
p("A01","Unary elementwise operations: value and gradient for all inputs",
 "For every unary elementwise expression (trigonometric, hyperbolic, inverse, exponential, logarithmic, root, power, square, reciprocal, error function, rounding, sign, clip families) the value of the expression equals the mathematical function at every element of its domain (the reciprocal is bounded by 1/eps around zero), and after backward the gradient of its input equals incoming gradient times the function's derivative there (rounding operations pass the incoming gradient straight through, sign has gradient zero).",
 ["inputs"],"every element of each function's domain, every tensor shape, every incoming gradient",
 "Tests compare few points, mostly of the forward value; a wrong derivative only makes training subtly worse.",
 [OP],[("unary_operator forward/backward lambdas",OP)],None,["session run result","variable gradient after backward"])
p("A02","Binary and n-ary arithmetic operations: value and gradients with broadcasting",
 "For +, -, *, /, elementwise product and division, matrix product, maximum/minimum, atan2, hypot, equal and mixed tensor/scalar forms, the value of the expression equals the operation on broadcast operands (elementwise products and quotients broadcast a smaller operand along leading dimensions) and backward delivers to each operand a gradient of that operand's own shape equal to the mathematical gradient, summed over the dimensions along which it was broadcast.",
 ["inputs"],"all operand shape pairs accepted, both operand orders, variables, constants and scalar values as operands",
 "Broadcast-gradient errors need specific shape pairs and asymmetric operands; tests use one or two.",
 [OP],[("binary_operator and broadcast gradient reduction",OP)])
p("A03","Structural operations: value placement and adjoint gradients",
 "Reshape, flatten, identity, transpose, concatenate, squeeze, expand_dims, repeat, flip, broadcast, sliding window, assign, argmax/argmin and ones/zeros/random-like structural expressions put each input element where their definition says, and backward routes each incoming gradient element back to the input element(s) it came from, so that <op(x),g> = <x,op*(g)> for the linear ones.",
 ["inputs"],"all shapes, axes and ranges accepted",
 "The adjoint must hold for each index mapping; tests check one shape or only forward.",
 [OP],[("reshape/flatten/transpose/concatenate/... operators",OP)])
p("A04","Reduction expressions: value and gradient",
 "Sum, mean, max and min reduction expressions, whole or along one axis, have the value of the corresponding mathematical reduction over exactly the elements along that axis and the shape with that axis removed, and backward gives each input element its partial derivative times the incoming gradient of the output element it contributed to (for maxima and minima: the element selected; for the whole-tensor mean the library divides by the batch dimension).",
 ["inputs"],"all shapes, axes (including negative/default) and sign patterns",
 "Axis handling and argmax routing only fail on particular shapes; tests use one.",
 [OP],[("reduce_sum/reduce_mean/reduce_max/reduce_min/sum_reduce/mean_reduce",OP)])
p("A05","Convolution equals its definition for every geometry, forward and backward",
 "A 2-D convolution expression (any kernel size, stride, dilation, 'same'/'valid' padding with 'same' limited to effective kernels at least as large as the stride and even total padding, channel counts, batch size, square or not) equals the direct nested-loop definition, and backward gives both the image and the kernel their exact gradients; im2col patches contain exactly the designated pixels or zero padding. The transposed convolution is at stride one the adjoint of the convolution, and its gradients are exact for every geometry.",
 ["inputs","configurations"],"all image/kernel/stride/dilation/padding geometries, including non-square ones",
 "A geometry error appears for non-square images, odd strides or dilation; tests use square cases.",
 [OP],[("img2col/conv2d/general_conv2d/transposed convolution",OP)])
p("A06","Pooling, resampling, padding and cropping: value and gradient",
 "Max/average pooling, up-sampling, zero-padding and cropping of NHWC images produce exactly the defined pixels for every image size, and backward sends each incoming gradient to exactly the pixel(s) it came from, again on every repeated run.",
 ["inputs","histories"],"all image sizes, factors, paddings and several consecutive runs of one expression with different data",
 "Stale state between runs and non-divisible sizes are never exercised by tests.",
 [OP],[("max_pooling_2d/average_pooling_2d/up_sampling_2d/zero_padding_2d/cropping_2d",OP)])
p("A07","Activation functions: value and gradient",
 "Each activation (relu family, sigmoid, hard sigmoid, softmax, log-softmax-like, softplus, softsign, tanh, swish, gelu, elu, selu, exponential, mish, lisht, tank-shrink etc.) has its documented value for all inputs, softmax rows are positive and sum to one, and backward multiplies the incoming gradient by the function's true derivative (for softmax: its Jacobian along the last axis).",
 ["inputs"],"all input values away from kinks, all shapes, all incoming gradients",
 "Tests check one forward value per activation and almost no gradient.",
 ["include/activation.hpp"],[("activation operators","include/activation.hpp")])
p("A08","Losses: value and gradient with respect to the prediction",
 "Every loss (mean squared, mean absolute, mean squared logarithmic, squared, absolute, hinge, categorical cross entropy with label smoothing, binary cross entropy; as functions and as the arguments of compile) equals its documented formula on any batch, and backward gives the prediction the gradient of that scalar under the library's batch convention; perfect predictions give a zero loss where the formula is a distance.",
 ["inputs"],"all batches of predictions and targets within each loss's domain",
 "Formula and derivative must agree on all batches; tests check one forward value.",
 ["include/loss.hpp",OP],[("loss expression factories","include/loss.hpp")])
p("A09","Normalisation, dropout and the learning phase",
 "In the learning phase batch normalisation uses the statistics of the current batch and updates its running statistics with its momentum, and in the inference phase it uses the running statistics and changes nothing (before the first learning run it is the identity); dropout zeroes about the requested fraction and rescales the survivors while learning, routes gradients only through survivors with the same scale, and is the identity in inference, on any sequence of phases and batch sizes.",
 ["inputs","histories"],"all batch sizes, factors, momenta and phase switch histories",
 "Tests run one phase once.",
 [OP,"include/layer.hpp"],[("normalization_batch/batch_normalization/drop_out/learning_phase",OP)])
p("A10","Back-propagation gives the true gradient for every expression graph",
 "For any acyclic expression built from the library's operations, including ones in which a sub-expression or variable is used many times, running it and then calling backward accumulates in each trainable variable the exact gradient of the output contracted with the incoming gradient, no more and no less, and does not alter the caller's incoming gradient tensor. Each sub-expression is evaluated once per run and non-trainable variables, constants and placeholders receive nothing that changes a result.",
 ["programs","inputs"],"all expression graphs over the operation set, sharing patterns included, all values",
 "Sharing patterns are unbounded; tests build chains and trees, never shared sub-expressions with numeric gradients.",
 [OP,"include/variable.hpp","include/session.hpp"],[("unary_operator/binary_operator run/backward and forward cache",OP)],
 [("session::forward_cache_","value of each sub-expression in the current run")])
p("A11","Re-running an expression always reflects the current inputs",
 "A session run of an expression gives the same value and gradients as a freshly built identical expression over the current variable data and placeholder bindings, whatever runs, bindings, batch sizes, or backward passes happened before on the same expression.",
 ["histories","inputs"],"all histories of runs, rebinding with different data or batch size, variable updates and backward passes",
 "Stale cached buffers need a second run with a different batch size or data; tests run once.",
 [OP,"include/session.hpp","include/place_holder.hpp"],[("session cache and per-operator context caches",OP)])
p("A12","Predicted shapes equal actual shapes",
 "Where an expression can report its output shape before running (from variables and constants of known shape), running it produces a tensor of exactly that shape.",
 ["programs","inputs"],"all operations with a shape prediction and all operand shapes",
 "Shape prediction errors are silent for most shapes (used to size weights).",
 [OP,"include/activation.hpp"],[("output shape calculators",OP)])
p("A13","Complex expressions obey complex arithmetic, with gradients",
 "Complex expressions built from real and imaginary parts satisfy complex arithmetic (elementwise add, subtract, conjugate, negate, abs, norm, arg, polar; multiplication with the library's product of expressions), also with mixed real/complex operands in either order, and gradients flow to the real and imaginary parts accordingly.",
 ["inputs"],"all values and shapes, both operand orders",
 "Tests check one shape and omit several operator overloads.",
 ["include/complex_operator.hpp"],[("complex operator overloads","include/complex_operator.hpp")])
p("O01","Optimizers apply their documented update rule at every step",
 "Each optimizer (SGD with momentum, decay and Nesterov, Adagrad, RMSprop, Adadelta, Adam, gradient descent) changes every trainable variable at every step exactly as its recurrence prescribes from the loss gradient averaged over the batch, keeps its state per variable, clears the gradients, and leaves non-trainable variables untouched.",
 ["histories","inputs"],"all hyper-parameters, all gradient sequences, several variables of different shapes",
 "Tests watch a loss decrease; a wrong recurrence still decreases it.",
 ["include/optimizer.hpp"],[("optimizer forward()","include/optimizer.hpp")],[("variable contexts","per-variable moments")])
p("O02","Regularizers and trainability",
 "L1/L2/L1L2 regularizers add exactly their derivative (l1 times the sign, l2 times twice the value) to the gradient of their variable at every backward pass, a variable marked non-trainable never changes during training, and re-enabling it resumes updates.",
 ["inputs","histories"],"all regularizer strengths, value signs and toggling histories",
 "No test exercises regularizers in training.",
 ["include/variable.hpp","include/optimizer.hpp","include/layer.hpp"],[("variable regularizer and trainable flag","include/variable.hpp")])
p("O03","Model fit, evaluate, predict and train-on-batch compute what they report",
 "Predict equals evaluating the model's expression on the given input in the inference phase with no training side effect, evaluate returns the mean loss over the full batches of the data without changing any weight, fit performs exactly one optimizer step per full training batch per epoch (the validation part is only evaluated, in the inference phase) and reports the mean losses, and train-on-batch performs exactly one step.",
 ["inputs","histories"],"all data sizes, batch sizes, epoch counts and validation splits",
 "Off-by-one batch errors do not stop convergence in the tests.",
 ["include/model.hpp"],[("compiled_model fit/evaluate/train_on_batch","include/model.hpp")])
p("O04","Layers compute their documented functions",
 "Each layer factory (Input, Dense, Conv2D, activations, Dropout, BatchNormalization, Concatenate, Add/Subtract/Multiply, pooling, up-sampling, padding, Reshape, Flatten) builds an expression whose value is the documented function of the layer's input and its weights, with weights of the documented shapes, initial values and regularizers that respect the given parameters.",
 ["inputs","configurations"],"all layer parameters and input shapes",
 "Tests run single instances without a reference.",
 ["include/layer.hpp"],[("layer factories","include/layer.hpp")])
p("S01","Session save and restore is lossless",
 "Saving a session (plain or compressed) and restoring it into a session with the same variables gives every variable bit-identical data, and so identical predictions of models whose state is held in variables; saving changes nothing, restoring leaves other variables alone and a missing file is reported.",
 ["inputs","histories"],"all variable sets, shapes and finite values, and interleavings of save, training and restore",
 "The test restores friendly values with tolerance.",
 ["include/session.hpp","include/variable.hpp"],[("session save/restore","include/session.hpp")])
p("S02","LZW compression is lossless and rejects corrupt input safely",
 "Decompressing what the LZW compressor produced gives back the original bytes for every input, including empty, highly repetitive, random and dictionary-overflowing ones; decompressing corrupt or truncated input ends with an exception or some output, never with an out-of-bounds access or a hang.",
 ["inputs","fault_sequences"],"all byte strings and all corruptions of compressed files",
 "One short text is tested.",
 ["include/utils/lzw.hpp"],[("lzw compress/decompress","include/utils/lzw.hpp")])
p("S03","Handles share state, identifiers are unique, bindings take effect",
 "Copies of a variable or placeholder are handles to one state: writes through one are seen through all, for data, gradient, trainability and bindings; distinct variables (built from distinct tensors), placeholders, constants and operators have distinct identifiers and never share state; ordering of handles is a strict weak order; and running with an unbound placeholder is reported.",
 ["histories","programs"],"all histories of copying, assigning, binding and writing over a set of handles",
 "Tests never keep several handles alive and compare.",
 ["include/variable.hpp","include/place_holder.hpp","include/constant.hpp","include/utils/id.hpp","include/utils/state.hpp"],[("shared state pointers","include/variable.hpp"),("id generator","include/utils/id.hpp")])
p("M01","Allocators hand out disjoint, writable blocks and the vector keeps its contents",
 "Over any history of allocations and releases the caching allocator, and the buffered allocator for one small block at a time per allocator object, return blocks that are large enough, aligned, do not overlap any live block, and are released exactly once; the library's own vector container preserves its elements over construction, copy, move, assignment and resizing without leaks or double frees.",
 ["histories"],"all histories of allocate/deallocate and container operations over sizes",
 "Tests do not release and re-acquire memory.",
 ["include/utils/cached_allocator.hpp","include/utils/buffered_allocator.hpp","include/utils/vector.hpp"],[("reserved/allocated memory maps","include/utils/cached_allocator.hpp")],[("reserved_memory","freed blocks by size")],None,"poison reserved blocks")
p("M02","No memory error or undefined behaviour in any accepted use; misuse is stopped",
 "No call of a tensor function, expression (run, backward, re-run, shape query), session or model operation with any operand shapes - fitting, misfitting, empty or without dimensions - and any axis, size or setting reads or writes outside live storage, uses freed memory, has undefined behaviour or hangs. Calls whose operands clearly do not fit together (shapes that cannot be broadcast, wrong matrix sizes, axes out of range of tensor functions, unbound placeholders, fewer labels than samples) are stopped by the library's own assertion or an exception and not accepted silently.",
 ["programs","inputs","fault_sequences"],"all operation sequences and shapes, both accepted and misfitting",
 "Out-of-bounds reads often go unnoticed without instrumentation, and tests never pass misfitting operands.",
 TEN+[OP],[("better_assert contract checks","include/utils/better_assert.hpp")],None,None,"poison reserved blocks")
p("U01","Parallel loops execute each index exactly once and equal serial loops",
 "The parallel loop helper calls its function exactly once for every index in [first,last), for any bounds first<=last and thread count, and for_each over one or several ranges applies the function once to each position, so threaded and serial builds of any tensor computation give the same result.",
 ["inputs","schedules"],"all ranges (including ones that do not start at zero, empty and tiny ones), all thread schedules",
 "Tests cover ranges from zero of one size.",
 ["include/utils/parallel.hpp","include/utils/for_each.hpp"],[("slice partition","include/utils/parallel.hpp")])
p("U02","Range, stride, view, enumerate, reverse and list helpers visit what they say",
 "Ranges, strided iterators (of positive stride), enumerations, reversals, views and list utilities visit exactly the specified elements in the specified order with the right indices, and iterator arithmetic (difference, advance, comparison) is consistent with stepping.",
 ["inputs"],"all bounds, strides and container sizes",
 "Tests print a few ranges.",
 ["include/utils/range.hpp","include/utils/stride_iterator.hpp","include/utils/view.hpp","include/utils/enumerate.hpp","include/utils/reverse.hpp","include/utils/list.hpp"],[("iterators","include/utils")])
p("R01","Threaded evaluation is free of data races and deterministic",
 "With the default threaded loops, evaluating and back-propagating expressions has no data race, and repeated evaluation of the same expression on the same data gives the same value.",
 ["schedules"],"all thread schedules of the library's own parallel loops over all operations",
 "Tests run on whatever schedule occurs and do not look for races.",
 ["include/utils/parallel.hpp","include/utils/for_each.hpp",OP,"include/tensor.tcc"],[("parallel loops over disjoint elements","include/utils/parallel.hpp")])
p("D01","Dataset loaders return exactly the file contents or report an error",
 "Loading a well-formed MNIST-style image and label set returns every image and a one-hot label at the matching position; loading missing, truncated, oversized or corrupt files is reported or yields only whole records that are in the files, never an out-of-bounds access.",
 ["inputs","fault_sequences"],"all well-formed files and all truncations and corruptions of them",
 "Test data are absent; nothing covers malformed files.",
 ["include/dataset.hpp"],[("mnist/fashion_mnist load_data","include/dataset.hpp")])
p("I01","Image reading, writing and resizing preserve pixels",
 "Writing an image tensor to a lossless format and reading it back gives the same pixels, channel order and shape for gray and colour images (bmp drops alpha), lossy formats stay within their tolerance, and a path without extension gets .png; resizing returns the requested shape, equals the documented resampling filters applied to each channel separately (Catmull-Rom enlarging, Mitchell otherwise) and keeps constant images constant.",
 ["inputs"],"all image sizes and channel counts, all lossless formats supported",
 "Tests write one image without reading it back.",
 ["include/utils/imageio.hpp","include/tensor.tcc"],[("imread/imwrite/imresize","include/utils/imageio.hpp")])
p("G01","Graph export describes exactly the computation graph",
 "Exporting an expression to Graphviz yields a well-formed digraph with exactly one node per distinct variable, constant, placeholder and operator of the expression, labelled with its kind, name, shape and trainability, and one edge per operand relation, without evaluating or changing the expression; the code dump defines every operand before it is used.",
 ["programs"],"all expression graphs, sharing included",
 "Tests only call the export.",
 [OP,"include/utils/enable_serializer.hpp"],[("computation_graph","include/operation.hpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
