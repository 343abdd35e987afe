def P(src, lane="asan", **k): return dict(src=src,lane=lane,**k)
PROPS={
 "T01":dict(rule="Each case draws a tensor function from a table, operand shapes and values, or a random history of handle operations mirrored by a storage model.",programs=[P("t01.cpp")]),
 "T02":dict(rule="Each case draws a sequence of constructions and shape-changing operations mirrored by a (shape, row-major values) model, or a view geometry.",programs=[P("t02.cpp")]),
 "T03":dict(rule="Each case draws a broadcastable shape pair and values; every arithmetic form is compared with an index-wise reference; small shape pairs are enumerated.",programs=[P("t03.cpp")]),
 "T04":dict(rule="Each case draws matrix sizes, transpose flags and values; results compared with the definition, operands in exactly sized heap blocks.",programs=[P("t04.cpp"),P("t04.cpp","asan-cblas")]),
 "T05":dict(rule="Each case draws shape, axis, keepdims and a value regime (negative, positive, constant, tiny, large, mixed).",programs=[P("t05.cpp")]),
 "T06":dict(rule="Each case draws shapes, axes and multiplicities with distinct element values, so a misplaced element is visible.",programs=[P("t06.cpp")]),
 "T07":dict(rule="Each case draws shapes, bounds and seeds; samples checked for bounds, moments (8 sigma, deterministic seeds) and reproducibility.",programs=[P("t07.cpp")]),
 "T08":dict(rule="Each case draws a shape and values from random bit patterns, extremes and fractions; round trip compared bit for bit; broken files must be reported.",programs=[P("t08.cpp")]),
 "A01":dict(rule="Each case draws a unary operation from a table, a shape and in-domain values away from kinks; value compared with libm, gradient with central differences of the reference or its closed form.",programs=[P("a01.cpp","asan",flags=["-DPART=0"]),P("a01.cpp","asan",flags=["-DPART=1"])]),
 "A02":dict(rule="Each case draws a binary operation, a broadcastable shape pair and operand kinds (variable, constant, number); value and both gradients compared with the reference.",programs=[P("a02.cpp")]),
 "A05":dict(rule="Each case draws a geometry (image, kernel, stride, dilation, padding, channels, batch), possibly changing between runs; values and both gradients compared with nested loops; small geometries enumerated.",programs=[P("a05.cpp")]),
 "A06":dict(rule="Each case draws image, window, stride, padding or cropping geometry, batch and channels, possibly changing between runs; values and gradients compared with nested loops.",programs=[P("a06.cpp")]),
 "A07":dict(rule="Each case draws an activation, a shape and values (ordinary, extreme, or away from kinks for gradients); value and gradient compared with closed forms, softmax with its Jacobian.",programs=[P("a07.cpp","asan",flags=["-DPART=0"]),P("a07.cpp","asan",flags=["-DPART=1"])]),
 "A08":dict(rule="Each case draws a loss, a batch of truths and predictions in its domain, redrawn with other batch sizes; value compared with the formula, gradient with central differences.",programs=[P("a08.cpp")]),
 "A03":dict(rule="Each case draws a structural operation, shapes and distinct values, possibly re-run with other shapes; placement compared exactly, gradient with the adjoint; functors reused on two inputs.",programs=[P("a03.cpp")]),
 "A04":dict(rule="Each case draws a reduction, shape, axis and value regime (negative, positive, large, small, shifted), re-run with other shapes; value, predicted shape and gradient compared with the definition, also with ties.",programs=[P("a04.cpp")]),
 "A09":dict(rule="Each case draws a history of learning/inference runs, batch sizes, data and backward passes over one dropout or batch-normalisation expression, mirrored by a model of masks and running statistics.",programs=[P("a09.cpp")]),
 "A10":dict(rule="Each case draws a random expression graph (leaves, shapes, operations, shared sub-expressions), a static composition or a small network; value, gradient of every leaf, evaluation counts and untouched inputs are compared with a dual-number reference (networks: central differences of the library's own value).",programs=[P("a10.cpp","asan",flags=["-DPART=0"]),P("a10.cpp","asan",flags=["-DPART=1"]),P("a10.cpp","asan",flags=["-DPART=2"])]),
 "A11":dict(rule="Each case draws a random expression graph and a history of rebinding, batch-size changes, phase changes, runs of two outputs and backward passes; each run is compared with the reference on the current inputs and, bit for bit, with a freshly built identical expression.",programs=[P("a11.cpp")]),
 "A12":dict(rule="Each case draws a random expression graph or a library operation with its geometry; the shape predicted before any run is compared with the shape of the value.",programs=[P("a12.cpp")]),
 "A13":dict(rule="Each case draws a complex operation, shapes and values away from singularities; real and imaginary part of the result and their gradients are compared with std::complex arithmetic.",programs=[P("a13.cpp")]),
 "O01":dict(rule="Each case draws an optimizer with its parameters, a model and a history of steps (batches, frozen variables, several optimizers); every variable is compared after each step with the recurrence computed from the recorded gradients.",programs=[P("o01.cpp")]),
 "O02":dict(rule="Each case draws regularizers, shapes, trainability changes and a history of steps; gradients and data compared with the rule, frozen variables bit for bit.",programs=[P("o02.cpp")]),
 "O03":dict(rule="Each case draws a model, data, batch size, epochs and validation split; predict, evaluate, fit and train_on_batch are compared with a hand-driven twin, weights bit for bit where nothing may change.",programs=[P("o03.cpp",flags=["-DPART=0"]),P("o03.cpp",flags=["-DPART=1"])]),
 "O04":dict(rule="Each case draws a layer, its parameters and inputs; the value is compared with the documented function of the input and the weights found in the session, together with weight shapes and initial values.",programs=[P("o04.cpp")]),
 "S01":dict(rule="Each case draws variables (counts, shapes, bit patterns), a plain or compressed save, disturbances and restores in the same process, or a model saved by one process and restored by another; data compared bit for bit.",programs=[P("s01.cpp")]),
 "S02":dict(rule="Each case draws bytes (random, periodic, text, dictionary-overflowing) for a round trip, or damages a compressed stream (cut, flipped, overwritten, removed, crafted codes, around the dictionary reset).",programs=[P("s02.cpp")]),
 "M01":dict(rule="Each case draws a history of acquisitions and returns (sizes, order, threads of ownership) against the cached allocator or the buffered allocator, or a workload of tensors; every live block must be disjoint, aligned and keep the bytes written, and returns must be balanced.",programs=[P("m01.cpp")]),
 "U01":dict(rule="Each case draws bounds, index type, thread count and schedule perturbations; each index counted, threaded results compared bit for bit with serial ones.",programs=[P("u01.cpp","ubsan-par")]),
 "U02":dict(rule="Each case draws bounds, strides, container kinds and sizes; the visited sequence and the iterator arithmetic are compared with stepping.",programs=[P("u02.cpp")]),
 "S03":dict(rule="Each case draws numbers of objects, copies and runs; identifiers compared pairwise and sharing probed by writes through one copy.",programs=[P("s03.cpp")]),
 "R01":dict(rule="Each case draws an expression, model or tensor function above the threading threshold and a core count; it is run repeatedly under ThreadSanitizer and compared bit for bit.",programs=[P("r01.cpp","tsan"),P("u01.cpp","tsan")]),
 "D01":dict(rule="Each case draws a well-formed MNIST-style file set (sizes, pixels, labels) or damages one (cut, extended, emptied, removed, bytes or labels overwritten); tensors compared byte for byte with the files, damage must be reported or harmless.",programs=[P("d01.cpp")]),
 "I01":dict(rule="Each case draws an image (size, channels, style, element type), a path and a format, or a pair of sizes; pixels read back compared exactly (lossless) or within tolerance, resized pixels compared with the filters evaluated in double precision.",programs=[P("i01.cpp")]),
 "G01":dict(rule="Each case draws an expression (leaves, operations, sharing, trainability) or a network; the exported text is parsed and compared with the structure recorded while the expression was built; the code dump is scanned for undefined operands.",programs=[P("g01.cpp")]),
 "M02":dict(rule="Each case draws operand shapes (also empty, scalar, of unrelated ranks), axes, sizes and settings in and out of range and attempts a handful of calls, each in a forked child under AddressSanitizer, UndefinedBehaviorSanitizer and checked iterators: the call must complete or be stopped by an assertion or exception, and a clear misfit must be stopped.",programs=[P("m02.cpp",flags=["-DPART=%d"%k]) for k in range(3)]),
}
# how many times the scenarios' base counts a run goes through (chosen so that a quick run executes for a few seconds)
SCALE=dict(T01=10,T02=20,T03=10,T04=10,T05=20,T06=20,T07=5,T08=10,A01=10,A02=10,A03=3,A04=10,A05=3,A06=3,A07=5,A08=3,A09=10,A10=2,A11=3,A12=5,A13=5,
 O01=2,O02=8,O03=3,O04=5,S01=2,S02=1,S03=3,M01=10,M02=1,U01=2,U02=20,R01=1,D01=3,I01=10,G01=10)
