#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state or [], observe=observe or []))

T = "all six element types (float32, float64, int, int16, int32, int64)"

prop("C01", "Elementwise operations compute every element",
 "Adding, subtracting, multiplying and dividing two tensors of one shape, or a tensor and a scalar, negation, absolute value and applying a function give a tensor of the operand's shape whose every element is the operation on the corresponding operand elements. This holds for every element type and shape, including not-a-number, infinities and overflow, both for the at-once form and for the graph form.",
 ["inputs","programs"], "every operation, element type, rank and size of the operands, and every element value",
 "The tests use a few 2x2 to 3x3 float32 tensors per operation; other element types, ranks 0 and above 3, sizes above a dozen elements and special values are never run.",
 ["tensor/math.go","tensor/oper2.go","tensor/oper_scalar.go","tensor/neg.go","tensor/abs.go","tensor/activate.go","operation/add.go","operation/sub.go","operation/mul.go","operation/div.go","operation/neg.go","operation/abs.go","operation/func.go"],
 [("one operation object per element","operation/*.go Cal"),("lazy build of elementwise nodes","tensor/oper2.go, tensor/oper_scalar.go BuildGraph"),("at-once versions","tensor/math.go")],
 "runtime oracle on every element of random operations (independent reference)", "Every generated operation is decided exactly, element by element, by an independent reference; sampling over shapes, types and values.")

prop("C02", "Reductions and soft-max cover every element once",
 "Sum, average, maximum and minimum of a tensor, over everything or over all dimensions after a chosen one, are the reduction of exactly the elements they name, each counted once. Soft-max keeps the shape and gives every element its distance from the minimum divided by the sum of these distances. The distance of two equally long slices is the root of the summed squared differences.",
 ["inputs","programs"], "every reduction, dimension, element type, shape and value, ties and negative values included",
 "The tests reduce a few small float32 tensors with distinct positive values; negative maxima, ties, other ranks and types are not run.",
 ["tensor/dim_math.go","tensor/tensor_math.go","tensor/softmax.go","operation/sum.go","operation/avg.go","operation/max_min.go"],
 [("reduction operations over operand lists","operation/sum.go, avg.go, max_min.go"),("grouping of elements by leading dimensions","tensor/dim_math.go, tensor/tensor_math.go")],
 "runtime oracle on every element of random reductions (independent reference)", "Exact for integers and for floats whose sums are exact, otherwise within rounding of the reference.")

prop("C03", "Rearrangements move every element to its place",
 "Reshape, flatten, transpose, sub-tensor (with and without extension beyond the borders), concatenation, copy and filling put each operand element exactly where the row-major definition says, in a result of the documented shape; padding elements hold the default value. The at-once and the graph form agree on this, alone and chained.",
 ["inputs","programs"], "every rearrangement, parameter (dimension, from, to), element type and shape, and every chain of rearrangements",
 "The tests rearrange one or two fixed tensors per operation.",
 ["tensor/reshape.go","tensor/transpose.go","tensor/sub_tensor.go","tensor/concat.go","tensor/copy.go","tensor/fill.go"],
 [("index arithmetic of the result","tensor/sub_tensor.go, tensor/concat.go, tensor/transpose.go"),("sharing of element operands in graphs","BuildGraph of each")],
 "runtime oracle on every element of random rearrangements and chains", "Exact comparison with an independent row-major reference.")

prop("C04", "Dot products contract the chosen dimensions",
 "The dot product of two tensors over chosen dimensions of equal size is the tensor over the remaining dimensions, first operand's before second's, whose every element is the sum of products along the contracted pair. The form without explicit dimensions contracts the last dimension of the first with the second-to-last (or only) dimension of the second.",
 ["inputs","programs"], "every pair of shapes and every pair of equal dimensions; all element types",
 "The tests multiply a handful of small matrices; ranks above 2 and unusual dimension pairs are sampled once or never.",
 ["tensor/dot_product.go"],
 [("index construction for both operands","tensor/dot_product.go")],
 "runtime oracle, complete for shapes of rank 1 to 3 with sizes 1 to 3, random beyond", "All small shape pairs are enumerated with random values; larger ones sampled.")

prop("C05", "A graph recomputes its result from current inputs on every run",
 "Whenever a built graph is executed, every tensor of the expression equals the mathematical value of the expression on the values its inputs and scalars hold at that moment, however the expression shares sub-expressions and whatever was executed, overwritten or changed before. Building or running one graph does not disturb another one over the same inputs.",
 ["programs","histories","inputs"], "every expression DAG over all operations, every history of input changes, scalar changes, overwritten intermediates and executions",
 "The tests build one expression, execute once and compare; sharing, re-execution after changes and several graphs over one input are not covered.",
 ["graph/graph.go","context/context.go","tensor/tensor.go","tensor/tensor_mat.go","operation/operation.go","operation/scalar.go","number/scalar.go"],
 [("operations are pushed once, in dependency order","BuildGraph, context.Push"),("graph runs operations in order","graph/graph.go Exec")],
 "online monitor comparing every node of random expression histories with a reference evaluator", "Random programs and histories; every intermediate tensor is decided after every execution.",
 state=[dict(name="operand value", meaning="current value of one element", where="number/scalar.go"), dict(name="operation list", meaning="execution order of a graph", where="context/context.go")])

prop("C06", "At-once and graph results agree and operands stay untouched",
 "For every operation that exists in both forms, the at-once form and a graph of the same operation give the same result. Neither changes its operands, and an at-once result shares nothing with them: later writes to an operand or to that result never show up in the other.",
 ["programs","inputs","histories"], "every operation with both forms, every operand, and every later write to operands or results",
 "The tests compare results with constants; none looks at the operands afterwards or writes into a result.",
 ["tensor/math.go","tensor/tensor_math.go","tensor/dim_math.go","tensor/reshape.go","tensor/concat.go","tensor/sub_tensor.go","tensor/dot_product.go","tensor/softmax.go"],
 [("at-once forms allocate fresh elements","tensor/*.go"),("graph forms read operand elements","BuildGraph")],
 "aliasing monitor: snapshot operands, compare both forms, then write and re-observe", "Every generated case observes all operands before and after and after later writes.")

prop("C07", "Indices address row-major storage and bad ones are errors",
 "For every tensor, an index of the right rank with all coordinates in range reads and writes exactly the element at its row-major position and no other. Every other index (wrong rank, coordinate out of range) is reported as an error by every reading, writing and index-translating call, without a panic and without changing anything.",
 ["inputs"], "every shape, every valid index, every kind of invalid index, every constructor or operation the tensor comes from",
 "The tests check a few indices of small tensors and hardly any invalid one.",
 ["tools/tools.go","tensor/tensor_mat.go","tensor/tensor.go"],
 [("multi-index multipliers and translation","tools/tools.go GetIndexMul, GetIndex, GetInverseIndex"),("Get, Set, GetOperand","tensor/tensor_mat.go")],
 "access monitor: complete read-out, random writes and hostile indices", "Small shapes complete, larger random; all cells re-observed after writes.")

prop("C08", "Invalid operand combinations are rejected, not computed",
 "Combining tensors whose shapes do not fit the operation, or naming a dimension or range that does not exist, yields an error: at once from the at-once form, and from building the graph for the graph form, at whatever depth of an expression the mistake sits and however often it is tried. Loading data of the wrong size is an error as well. A rejected call never panics, hangs or changes its operands.",
 ["inputs","programs"], "every kind of mismatch of every operation, at any position of an expression, every element type",
 "The tests check very few invalid combinations, one operation at a time.",
 ["tensor/oper2.go","tensor/math.go","tensor/concat.go","tensor/dot_product.go","tensor/sub_tensor.go","tensor/dim_math.go","errors/error.go","graph/graph.go"],
 [("shape checks before building","BuildGraph of each operation"),("error propagation","graph/graph.go NewGraph")],
 "negative-path monitor: generated mismatches embedded in random expressions, operands watched", "Every kind of mismatch per operation with random shapes and depth.")

prop("C09", "A saved tensor is read back bit for bit",
 "Saving a tensor and loading it again, with or without its shape, restores shape and every element exactly, for every element type and for streams that hold several tensors and deliver their bytes in arbitrary pieces; a load consumes exactly the bytes its save wrote. A stream that ends early or announces more than it holds and a reader or writer that fails are reported as errors, not as success; a failed load with the shape leaves the tensor as it was.",
 ["inputs","fault_sequences","crash_points"], "every tensor and element type, every sequence of saves and loads on one stream, every split into reads, every truncation and fault position",
 "No existing test saves or loads a tensor.",
 ["tensor/tensor_mat.go","tensor/tensor.go"],
 [("binary little-endian encoding","tensor/tensor_mat.go Save, Load, SaveFull, LoadFull")],
 "round-trip monitor with short reads and complete sweeps of fault positions", "For each generated stream every truncation and fault byte is tried; streams sampled.")

prop("C10", "A saved model behaves identically after loading",
 "Saving a model and loading it into a model of the same architecture reproduces every parameter exactly, so that predictions and later training steps are the same as those of the saved model, whatever either model did before and whichever layers are trainable, and for architectures with branches, shared layers and models used as layers. Several models can share a stream; a truncated stream or failing reader or writer is reported as an error.",
 ["configurations","histories","fault_sequences"], "every architecture and element type, every training history of both models, every truncation or fault position",
 "No existing test saves or loads a model.",
 ["model/model_layer.go","layer/base.go","layer/concat.go","layer/dense.go","layer/conv2d.go","layer/deconv2d.go","layer/layer.go"],
 [("layer chain recursion with visited marks","layer/*.go Save, Load, ResetSave, ResetLoad")],
 "round-trip monitor over random architectures and histories, twin comparison, injected I/O faults", "Bit-exact twin comparison of parameters, predictions and further steps.",
 state=[dict(name="saved / loaded marks", meaning="layer already visited in this pass", where="layer/base.go")])

prop("C11", "Layers with parameters compute their documented formula",
 "A dense layer answers activation(W·x + b) for every neuron; a convolution answers, per filter and position, the activation of the kernel-weighted sum of its window over all channels plus bias; a transposed convolution is the corresponding scatter. The output shape is the one kernel, stride and filter count imply, with different width and height handled independently, for every input size that is accepted.",
 ["inputs","configurations"], "every input shape, kernel, stride, filter or neuron count, activation, parameter value and sample; chains of such layers",
 "The tests run each layer once on one tiny configuration, mostly square with one channel.",
 ["layer/dense.go","layer/conv2d.go","layer/deconv2d.go","layer/base.go","layer/input.go"],
 [("feed-forward graph construction","layer/dense.go, conv2d.go, deconv2d.go BuildFeedforward")],
 "runtime oracle: each layer's output recomputed from observed parameters by an independent reference", "Random architectures; parameters are read from the model and the forward pass recomputed in float64.")

prop("C12", "Layers without parameters compute their documented function",
 "Flatten, sub-tensor, concatenation, max-pooling, up-sampling, normalisation and soft-max layers pass on exactly the documented function of their input for every shape they accept: pooling takes the maximum of each window and covers the whole input, up-sampling repeats each cell, normalisation divides by the largest magnitude and maps to its range. This holds wherever the layer stands, next to any other layer, and with several readers.",
 ["inputs","configurations"], "every input shape, window, factor, range and dimension; every position in a chain or branch; every sample",
 "The tests run each layer on one tiny fixed input.",
 ["layer/flatten.go","layer/sub_tensor.go","layer/concat.go","layer/max_pool_2d.go","layer/up_sampling_2d.go","layer/norm.go","layer/softmax.go"],
 [("feed-forward graph construction","layer/*.go BuildFeedforward")],
 "runtime oracle: each layer's output recomputed by an independent reference", "Random architectures; exact for copies, within rounding otherwise.")

prop("C13", "Impossible architectures and samples of wrong shape are refused",
 "Building a model whose layers do not fit (wrong rank for an image layer, kernel or range larger than the input, parts that cannot be joined, no input) and predicting or training with samples or targets of the wrong shape or in unequal numbers return an error, however often they are tried, instead of panicking or computing something. A refused sample leaves parameters and later results as if it had never been offered.",
 ["configurations","inputs","histories"], "every way an architecture can be invalid at any place, every entry point, every wrong shape, at every point of a history",
 "The tests only build valid architectures and feed samples that fit.",
 ["model/model.go","layer/dense.go","layer/conv2d.go","layer/deconv2d.go","layer/max_pool_2d.go","layer/up_sampling_2d.go","layer/concat.go","layer/sub_tensor.go","layer/input.go"],
 [("checks in Build and in Predict/TrainOne/Train","layer/*.go Build, model/model.go")],
 "negative-path monitor: mutated architectures and samples, twin model that never saw the refused call", "Each kind of invalidity with random surroundings; state compared bit for bit with a twin.")

prop("C14", "Prediction is a pure function of parameters and sample",
 "Predicting never changes a parameter, the sample or an answer given earlier, and the same model gives the same answer for the same sample bit for bit whatever was predicted, rejected, saved, reset or compiled in between. Predictions between training steps leave the training unchanged.",
 ["histories","inputs"], "every history of predictions, refused samples, saves, resets and writes into answers; every architecture and element type",
 "The tests predict at most once per model.",
 ["model/model.go","layer/input.go","layer/layer.go"],
 [("copying the sample in and the answer out","model/model.go Predict"),("re-execution of the forward operations","model/model.go")],
 "online invariant monitor over random prediction histories, with a twin for training", "Bit-exact comparison after every operation of a history.")

prop("C15", "A training step is exact gradient descent for chains of layers",
 "For a chain of dense, convolution and transposed-convolution layers, one training step on a sample returns the sum of absolute differences between target and prediction, and moves every weight and bias by the learning rate times the exact descent direction obtained by back-propagating target minus prediction through the layers' derivatives at the current parameters. This holds for every depth, shape, kernel, stride, activation, sample and learning rate, and for models used as layers.",
 ["configurations","inputs"], "every chain of such layers, every parameter value, sample, target and learning rate",
 "The tests train fixed toy networks and at most check that the loss falls, which wrong or missing gradient terms survive.",
 ["layer/dense.go","layer/conv2d.go","layer/deconv2d.go","layer/base.go","layer/layer.go","model/model.go","activation/activation.go"],
 [("back-propagation graph","layer/*.go BuildBackpropagation, BuildDer"),("loss and output error","model/model.go CompileBackPropagation")],
 "runtime oracle: every parameter after every step against independent reverse-mode differentiation, plus finite differences", "Independent reference gradient in float64 compared for all parameters after each step; kinks and ill-conditioned points are excluded by margin.")

prop("C16", "Errors flow correctly through parameterless layers and branches",
 "With flatten, sub-tensor, concatenation, pooling, up-sampling and normalisation layers anywhere between, before or after layers with parameters, and with branches over a shared input joined by concatenation, a training step still returns the exact loss and moves every parameter of every branch along the exact descent direction of that architecture. No layer is skipped, updated twice or fed another layer's error.",
 ["configurations","inputs"], "every placement and setting of parameterless layers, every tree of branches over the input, every sample and target",
 "The tests train at most one layer of each kind and never check a parameter value.",
 ["layer/flatten.go","layer/sub_tensor.go","layer/concat.go","layer/max_pool_2d.go","layer/up_sampling_2d.go","layer/norm.go","layer/softmax.go","model/model.go"],
 [("error transfer of each layer","layer/*.go BuildBackpropagation"),("consumer counts","layer/*.go GetRef")],
 "runtime oracle: every parameter after every step against independent reverse-mode differentiation", "As C15 for architectures with parameterless layers and branches; soft-max passes errors unchanged by design; inner fan-out is a recorded finding.")

prop("C17", "Training steps leave nothing behind but parameters and momentum",
 "A training step without momentum depends only on the current parameters, the sample, the target and the rates: after any history of steps, predictions, refused samples, saves, resets and recompilations the next step gives exactly the loss and parameters that a fresh model with the same parameters gives. Errors and intermediate values of earlier steps never leak into later ones.",
 ["histories"], "every history of operations on a model before the compared steps; every architecture",
 "The tests never compare a later step with a fresh model.",
 ["model/model.go","layer/base.go","layer/layer.go","layer/dense.go","layer/conv2d.go","layer/deconv2d.go","layer/norm.go"],
 [("resetting of accumulated errors","layer/*.go Reset, ResetFit"),("order of operations of a step","model/model.go")],
 "history monitor: used model against a fresh twin, bit for bit", "Bit-exact twin comparison over random histories.",
 state=[dict(name="accumulated error of a layer", meaning="must start from zero in each step", where="layer/base.go")])

prop("C18", "Train performs exactly the requested steps on matching pairs",
 "Training on a set performs epochs times batch single-sample steps (one pass worth of samples when no batch is given), each on a drawn input with its own target and the given rates, and every sample can be drawn; it ends in the state those single steps would produce and leaves the sets as they were. Sets of unequal length, steps on an empty set and samples that do not fit are refused with an error.",
 ["inputs","histories"], "every number of samples, epochs and batch size, every random draw",
 "The tests call Train only in demos and do not look at which pairs were used or how often.",
 ["model/model.go","tools/bar.go"],
 [("sampling loop","model/model.go Train")],
 "trace monitor: the sequence of (input, target) pairs recovered through recording activations, checked against the specification", "The complete sequence of steps is observed and decided; coverage of samples statistically with negligible false-alarm probability.")

prop("C19", "Frozen layers never change, the others train as usual",
 "Parameters of a layer that is set not trainable stay bit for bit the same through any training, and a model set not trainable freezes all of its layers, also behind branches. The other layers move exactly as they would if nothing were frozen, and a thawed layer trains again.",
 ["histories","configurations"], "every choice and sequence of freezing and thawing, every architecture and step",
 "One test sets a flag; no test compares the parameters of frozen and free layers.",
 ["layer/base.go","layer/layer.go","model/model_layer.go","layer/dense.go","layer/conv2d.go","layer/deconv2d.go"],
 [("trainable flag checked when updating","layer/*.go Fit / BuildBackpropagation"),("propagation to all layers","model/model_layer.go SetTrainable")],
 "history monitor: frozen parameters watched, free ones compared with a twin", "Random histories; bit-exact for frozen parameters.")

prop("C20", "Activations and their derivatives match their definitions",
 "Every activation computes its mathematical definition, parameters included, and its derivative is the derivative of that same function for every argument. Large finite arguments give the limit value, never a not-a-number where the mathematical value is finite.",
 ["inputs"], "every activation, parameter and finite argument, float32 and float64 (and integers where meaningful)",
 "No existing test evaluates an activation or derivative beyond the ones used in demos.",
 ["activation/elu.go","activation/gelu.go","activation/linear.go","activation/relu.go","activation/selu.go","activation/sigmoid.go","activation/sin.go","activation/swish.go","activation/tanh.go"],
 [("Activate and Derive","activation/*.go")],
 "pointwise oracle: independent formulas, finite differences of the observed function, extreme arguments", "Dense sampling over magnitudes from 1e-300 to 1e300.")

prop("C21", "Composed models compute and train the composition",
 "A model composed of several models answers what feeding each model's answer to the next would answer, for every history of training, saving and loading. Training the composition moves each part's parameters along the descent direction of the whole, except parts set not trainable, which keep theirs; parts remain usable for prediction on their own with the shared parameters. Parts that do not fit are refused.",
 ["configurations","histories","inputs"], "every list of models that fit, every history of predictions, steps, freezing and saves of whole and parts",
 "No test composes models (the documentation's GAN example does).",
 ["model/model.go","model/model_layer.go","docs/gan.md"],
 [("joining input of a model to the output of the previous one","model/model.go FromModels")],
 "history monitor: composition against its parts, direction oracle on the joined architecture", "Bit-exact for predictions, directional for steps (each part moves at a positive fraction of the exact step); stand-alone training of composed parts is a recorded finding.")

prop("C22", "Images convert to tensors and back faithfully",
 "Loading a picture gives a tensor of channel, column and row with every channel value between 0 and 1 as decoded, whatever the format, depth, size or origin; saving a four-channel tensor losslessly and loading it again gives each value rounded to the nearest representable level, clamped, and a JPEG is written with the quality asked for. Plain scaling picks the nearest lower source pixel and smooth scaling interpolates between source pixels, for every target size; files and tensors that are no picture are refused, and no call leaves a file open.",
 ["inputs","configurations"], "every picture size, format and content, every target size, every tensor value",
 "The image package has no tests.",
 ["img/image.go","img/save.go","img/simple_scale.go","img/smooth_scale.go"],
 [("decoding and channel layout","img/image.go"),("rounding and clamping","img/save.go"),("sampling positions","img/simple_scale.go, img/smooth_scale.go")],
 "pixel oracle: every pixel against the standard decoder and an independent sampling rule", "Random pictures and sizes; every pixel decided; files in a scratch directory.")

prop("C23", "Scalar types behave as half, single and double precision numbers",
 "Converting a number to a half, single or double precision scalar rounds to the nearest representable value with ties to even (overflow to infinity, gradual underflow, signed zeros and not-a-number kept), and reading it back returns exactly that value. Arithmetic and comparisons equal the IEEE operations of that width, and text output identifies the value.",
 ["inputs"], "all 65536 half-precision values, every float32 bit pattern, every pair of operands",
 "The scalar package has no tests.",
 ["scalar/f16.go","scalar/f32.go","scalar/f64.go","scalar/scalar.go"],
 [("bit conversion","scalar/f16.go")],
 "exhaustive sweep of half-precision values and (thorough) all float32 patterns against an independent converter", "Decode is complete; encode complete in the thorough tier, 1/128 blocks plus all rounding boundaries in the quick tier; arithmetic sampled.")

prop("C24", "Goroutines with their own models and tensors do not interfere",
 "Goroutines that build, predict with, train, save, load and compose their own models, evaluate their own graphs and tensors, and load and save images behave exactly as if each ran alone, in every interleaving. Activations, samples, targets and operands of at-once operations may be shared for reading without a data race.",
 ["schedules","programs"], "every set of concurrent programs over separate objects, every interleaving",
 "The existing tests run sequentially and without the race detector.",
 ["tensor/constructor.go","model/model.go","layer/base.go","context/context.go","activation/activation.go","img/image.go","graph/graph.go"],
 [("no package-level mutable state","whole repository"),("operands of at-once operations are only read","tensor/*.go")],
 "race detector plus trace comparison with sequential execution, with injected scheduling points and drawn interleavings", "Happens-before race detection on executed accesses; interleavings at the granularity of activation calls and I/O pieces.")

prop("C25", "Seeding makes runs reproducible; random values respect their ranges",
 "A single-goroutine program that seeds the random source gives exactly the same models, training and predictions each time it runs, and other seeds give other initial parameters. Uniform random tensors lie within the given bounds and normal ones have mean 0 and deviation 1, with elements drawn independently.",
 ["programs","inputs"], "every program of construction, training and prediction, every seed, shape, range and element type",
 "No test compares two runs from one seed or looks at the distribution.",
 ["tensor/constructor.go","number/constructors.go","layer/dense.go","layer/conv2d.go","layer/deconv2d.go","model/model.go"],
 [("all randomness from the global source","number/constructors.go, model/model.go Train")],
 "replay monitor (two runs from one seed, trace compared) and statistical monitors with wide bounds", "Replay is bit-exact; statistical bounds are 8 standard errors.")

prop("C26", "Momentum accumulates a velocity for every weight and bias",
 "With momentum, every step moves each weight and bias by the learning rate times the current descent direction plus the momentum times the move of the step before, in every layer with parameters; rates may change between steps. With momentum zero the step is plain gradient descent, and predictions, saves and refused samples in between do not affect the velocity.",
 ["histories","configurations"], "every architecture, every sequence of learning rates and momenta, every history in between",
 "Tests use momentum only in demo training and never check a parameter.",
 ["layer/base.go","layer/dense.go","layer/conv2d.go","layer/deconv2d.go","model/model.go"],
 [("velocity tensors","layer/base.go"),("rates as shared scalars","model/model.go setRates")],
 "runtime oracle: reference velocity recursion against every parameter after every step", "Random histories with changing rates; float64 reference within rounding.",
 state=[dict(name="velocity", meaning="last move of a parameter", where="layer/base.go")])

prop("C27", "Tensor storage: constructors, copies, loads and fills",
 "Constructors give tensors of the requested shape and contents that share nothing with each other, and data given or read as a slice is copied, so the caller's slice and the tensor never influence each other. Copying, loading, filling and transferring affect exactly the tensors involved, and every tensor holds the last value written to each of its cells.",
 ["histories","inputs"], "every shape and element type, every history of copies, loads, fills, transfers and element writes over several tensors",
 "The tests fill or copy one tensor once.",
 ["tensor/constructor.go","tensor/tensor_mat.go","tensor/copy.go","tensor/fill.go","number/scalar.go"],
 [("fresh operands per tensor","tensor/constructor.go initMat"),("LoadData, GetData copy","tensor/tensor_mat.go")],
 "history monitor against a model of storage cells", "Every tensor re-observed after every operation of random histories.")

prop("C28", "Models and tensors describe themselves correctly",
 "The text of a compiled model, plain or composed, lists every layer it is made of exactly once, behind the layers it reads, with its index, the indices of the layers it reads, its kind and its output shape; a layer's index is larger than those it reads. The text of a tensor gives rank, size, shape and every element in row-major order exactly. A progress bar has the width it is given and is filled in proportion. Describing never changes anything and can be repeated.",
 ["configurations","inputs","histories"], "every architecture with branches, shared and nested layers and compositions, every tensor and element type, every width and progress",
 "The tests never look at these texts.",
 ["layer/base.go","layer/concat.go","layer/input.go","model/model.go","model/model_layer.go","tensor/tensor_mat.go","tools/tools.go","tools/bar.go"],
 [("printed flag per layer","layer/base.go PushToString, layer/concat.go PushToString"),("String","model/model.go, tensor/tensor_mat.go")],
 "parser of the texts compared with the specification of what they describe", "Random architectures, compositions and tensors; texts parsed and compared completely.")

prop("C29", "Repeated use neither grows nor leaks",
 "Predicting, training, refusing samples, saving, loading, describing, freezing, compiling again, composing again, running or building graphs, operating at once and loading, scaling or saving pictures can be repeated without end: a later prediction, step or run does no more work than the first, graphs do not get longer, and what stays in memory afterwards, running goroutines and open files do not grow with the number of repetitions. A tensor expression used several times inside another is computed once per run, so building and running take work for the distinct operations and not for the paths to them.",
 ["histories","configurations"], "every architecture, composition and expression, every mix and number of repetitions",
 "The tests use everything once and measure nothing.",
 ["model/model.go","model/model_layer.go","graph/graph.go","context/context.go","tensor/tensor_mat.go","tensor/oper2.go","tensor/dot_product.go","layer/base.go"],
 [("built flag of every tensor operation","tensor/*.go BuildGraph"),("copies of the parts' graphs","model/model.go FromModels, graph/graph.go"),("compiled once","model/model.go Compile, CompileBackPropagation")],
 "resource monitors (reachable heap, goroutines, descriptors, counted activation calls, graph lengths) before and after many rounds", "Random models, compositions, graphs and operations in 60 to 160 rounds each; leaks below 6 bytes per call are not seen.")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["state"]: a["state"] = p["state"]
            a["hook_needed"] = None
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh",
      checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                   evidence_file=f"evidence/{p['id']}.json", technique="runtime monitoring: " + p["technique"],
                   level="exploration", level_note=p["note"]) for p in P],
      not_applicable=[],
      notes="No hooks in /repo: everything is observed through the public API of the packages. Replays: ./check.sh <ID> <tier> -case <group>/<index> with the VERIF_SEED of the report. known_findings.jsonl lists the recorded and the repaired defects.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
