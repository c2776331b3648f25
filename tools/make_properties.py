import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
L="thinc/layers/"
p("P01","A layer's backprop callback returns the true gradient of its forward pass",
 "For every built-in differentiable layer and every valid batch, the callback returned by a training-mode call gives the vector-Jacobian product of that call's output with respect to the input, and adds to each parameter's gradient the vector-Jacobian product with respect to that parameter. This includes batches with one row, empty sequences, repeated ids or indices, negative and large activations, and each container type the layer accepts; output layers documented to take the loss gradient of a softmax take it with respect to the logits. (The initial state of LSTM layers is a constant and gets no gradient.) The input gradient has the same container type and shape as the input. The softmax and pooling layers refuse an output gradient whose shape or type differs from their output's.",
 ["inputs","configurations"],"all built-in layers x their configuration (widths, pieces, windows, dropout/normalise flags) x valid batches x output gradients",
 "Tests check gradients for Linear and a few ops on a handful of sampled shapes; most layers' backward passes are only checked for shape or not at all.",
 [L+"*.py","thinc/backends/ops.py","thinc/backends/numpy_ops.pyx"],
 [("forward/backprop closures",L+"*.py forward()"),("backprop_* ops","thinc/backends/ops.py, numpy_ops.pyx")],
 observe=["Model.__call__ / begin_update, the returned callback, Model.get_grad"])
p("P02","Composed models compute the composition and follow the chain rule",
 "A model built from the combinators (chain, add, concatenate, residual, tuplify, clone, map_list, siamese, bidirectional, uniqued, resizable, reshaping, flattening, indexing, tracing and device wrappers) outputs exactly what composing its layers' own outputs gives, in the documented order. Its callback returns the chain-rule gradient, i.e. the sum over all branches and uses, and a layer used several times accumulates the gradient of every use. This holds for arbitrary nesting and for every container type the combinator accepts.",
 ["programs","inputs"],"random expression trees over the combinators, with shared nodes, x batches and output gradients",
 "Tests compose one or two Linear layers with fixed shapes; the aliasing, sharing and container cases only appear in particular compositions.",
 [L+x for x in ["chain.py","add.py","concatenate.py","residual.py","tuplify.py","clone.py","map_list.py","siamese.py","bidirectional.py","uniqued.py","with_reshape.py","with_flatten.py","with_flatten_v2.py","with_getitem.py","array_getitem.py","with_cpu.py","with_debug.py","resizable.py","noop.py"]],
 [("combinator forward/backprop",L+"chain.py, add.py, concatenate.py, residual.py, tuplify.py, bidirectional.py")],
 observe=["outputs and callbacks of the composed model versus those of its parts"])
p("P03","Gradients accumulate exactly and each update consumes them exactly once",
 "Parameter gradients (finite ones) are the exact sum of the contributions of all backward passes since the last update, in whatever order and from whatever batches they came. An update calls the optimizer exactly once for every distinct parameter in the tree that has a gradient, with that parameter and that gradient under its unique key, and not for any other; the value returned becomes the parameter and the gradient starts again from zero. Parameters without gradients, and other models, are not touched.",
 ["histories"],"histories of training calls, callbacks (in any order), updates, gradient reads/sets and copies over trees with shared layers and shims",
 "Tests run one forward/backward/update cycle on a single layer; the property is about every interleaving of cycles and sharing.",
 ["thinc/model.py","thinc/backends/_param_server.py","thinc/optimizers.py","thinc/shims/shim.py"],
 [("inc_grad accumulation","thinc/backends/_param_server.py"),("finish_update walk","thinc/model.py")],
 state=[("gradients","pending gradient per parameter","ParamServer"),("params","current value per parameter","ParamServer")],
 observe=["calls to the optimizer object; Model.get_grad/has_grad/get_param"])
p("P04","Running a model never changes caller data or earlier results",
 "Predicting, running a training-mode forward pass and calling its callback leave the input batch, the output gradient passed in, and the parameters bit-for-bit unchanged, and neither outputs nor gradients handed out earlier change later. Predicting is deterministic and leaves no trace: the same input gives the same output whatever was run before (other batches, training passes, other predictions). Callbacks of different batches are independent and give the same result in any order, and asking twice gives the same input gradient (PyTorch's own callbacks can be asked once only).",
 ["histories","inputs"],"histories of forward passes and callbacks, interleaved in any order, on all layers and random compositions, for every container type",
 "Tests call forward then backprop once and never look at the arrays afterwards; aliasing shows only in particular compositions and orders.",
 [L+"*.py","thinc/backends/ops.py","thinc/backends/numpy_ops.pyx","thinc/model.py"],
 [("out-of-place ops in closures",L+"*.py"),("inplace flags","thinc/backends/ops.py")],
 observe=["digests of inputs, outputs, gradients and parameters before and after each call"])
p("P05","Serialisation round-trips and rejects incompatible data",
 "Saving a model (to bytes, a dict or disk) and loading it into a freshly built model of the same structure gives identical parameters, dimensions, attributes, references, wrapped framework state and predictions, and saving again gives identical bytes; saving changes nothing. Loading never makes the two models share arrays. The compatibility test agrees with loading: when it says yes, loading succeeds and the model then works as the saved one, and data with a different structure, dimension, parameter shape or (strictly) name or attribute is answered no. Attribute values keep their kind as far as the format allows: tuples come back as tuples where the model loaded into has one.",
 ["programs","histories","inputs"],"random model trees with attributes of many types, references, shared nodes, unset dims/params, shims, at any point of training",
 "Tests round-trip a few small fixed models; structure, sharing, references, byte order and attribute types are not varied.",
 ["thinc/model.py","thinc/shims/shim.py","thinc/shims/pytorch.py","thinc/util.py"],
 [("to_dict/from_dict","thinc/model.py"),("can_from_dict","thinc/model.py"),("shim bytes","thinc/shims/*.py")],
 observe=["bytes/dict produced, predictions and parameters after loading"])
p("P06","A copy of a model is equivalent to and independent of the original",
 "Copying a model gives a model with the same structure (including shared nodes, references and unset values), names, dimensions, attributes, parameters, pending gradients and predictions, whose nodes all have new unique ids. From then on nothing done to one - training, setting parameters, gradients, dimensions or attributes, editing layers - is visible in the other.",
 ["programs","histories"],"random model trees x histories of mutations applied to either side after the copy",
 "Tests copy one small model and change one value.",
 ["thinc/model.py","thinc/shims/shim.py"],
 [("recursive copy with memo","thinc/model.py _copy"),("shim copy","thinc/shims/shim.py")],
 observe=["full observable state of both models after every step"])
p("P07","Temporary settings are restored exactly, however the block ends",
 "Temporarily swapping parameters, the active backend, the operator bindings or the validation switch takes effect exactly inside the block, and when the block ends - normally, by exception, or in any nesting - the state is exactly what it was before. Swapped-in parameters apply to every node of the tree that has an entry, including wrapped framework models, and to no other node; the arrays supplied are not modified by the swap.",
 ["histories","fault_sequences"],"nested sequences of temporary settings with exceptions raised at arbitrary points, on models with shared nodes and shims",
 "Tests enter each context once and leave it normally.",
 ["thinc/model.py","thinc/backends/__init__.py","thinc/util.py","thinc/shims/pytorch.py","thinc/shims/shim.py"],
 [("use_params","thinc/model.py, thinc/shims/*.py"),("use_ops","thinc/backends/__init__.py"),("define_operators","thinc/model.py"),("data_validation","thinc/util.py")],
 observe=["state before, inside and after each block"])
p("P08","Tree traversal and editing keep the model graph consistent",
 "Walking a model visits every reachable node exactly once, in the documented order, also when nodes are shared. Replacing or removing a node does so at every place it occurs, as layer and as reference, reports whether it did, leaves everything else as it was, and after removal no reference points outside the tree (after replacement, references to nodes below the replaced one may); recursively wrapping wraps every node once. References can only be set to nodes inside the tree, changing attributes or dropout rates by name reaches exactly the matching nodes, and every node's id is unique in the process.",
 ["programs","histories"],"random DAG-shaped models with shared nodes and references x sequences of edits",
 "Tests use one small tree per operation.",
 ["thinc/model.py"],
 [("walk bfs/dfs","thinc/model.py"),("replace_node / remove_node","thinc/model.py"),("set_ref check","thinc/model.py"),("change_attr_values / set_dropout_rate / wrap_model_recursive","thinc/model.py")],
 observe=["walk order, layers and refs of every node versus a graph model"])
p("P09","Threads do not disturb each other",
 "Any number of threads predicting with one model, or each building, training and serialising its own models, get exactly the results a sequential run gets (for work that is itself repeatable, i.e. draws no random numbers). Temporary settings (backend, operators, validation) made in one thread are never visible in another, and ids of nodes created concurrently are all different.",
 ["schedules"],"thread interleavings of prediction, construction, training, serialisation and context switches",
 "Tests are single-threaded apart from two small context tests; races need particular interleavings.",
 ["thinc/model.py","thinc/backends/__init__.py","thinc/util.py","thinc/shims/shim.py",L+"*.py"],
 [("id lock","thinc/model.py global_id_lock"),("ContextVars","thinc/backends/__init__.py, thinc/model.py, thinc/util.py")],
 observe=["per-thread results compared with the sequential run; ids; context values seen per thread"])
p("P10","Optimizers apply their documented update rule over whole histories",
 "For any history of updates, SGD, Adam and RAdam (with L2 as penalty or decoupled decay, gradient clipping by global norm of the parameter's gradient, per-call learning-rate scale, and hyper-parameters given as numbers, lists, generators or schedules) produce the values given by their published formulas. State is kept per parameter key: updates to one key never affect another, in whatever order keys are updated or skipped. The returned gradient is zeroed, and wrapped gradient sequences advance once per step.",
 ["histories","configurations"],"sequences of (key, weights, gradient, scale, step) x optimizer configurations, incl. scalar-, vector- and matrix-shaped parameters, empty and extreme gradients",
 "Tests check that one step changes the weights, not what they become after many steps and keys.",
 ["thinc/optimizers.py","thinc/backends/ops.py","thinc/backends/numpy_ops.pyx"],
 [("Optimizer.__call__","thinc/optimizers.py"),("adam kernel","thinc/backends/numpy_ops.pyx, ops.py"),("clip_gradient","thinc/backends/ops.py")],
 state=[("moments","first/second moment per key","Optimizer.mom1/mom2"),("counts","updates per key","Optimizer.nr_update")],
 observe=["weights and gradient returned by each call versus a float64 reference"])
p("P11","Parameter averages follow the documented moving average",
 "With averaging on, after every update the stored average of each parameter equals the documented warmed-up exponential moving average of the values that parameter had after each of its updates, per key, and storing it never aliases the live parameter. Using the averages on a model makes it predict exactly as a model holding those values, then restores the trained values; with averaging off nothing is kept.",
 ["histories"],"update histories over many keys and shapes, with averages read, used and training resumed at arbitrary points",
 "Tests look at averages after one or two updates of one array.",
 ["thinc/optimizers.py","thinc/backends/ops.py","thinc/model.py","thinc/shims/pytorch.py"],
 [("update_averages","thinc/backends/ops.py"),("use_params","thinc/model.py")],
 observe=["Optimizer.averages after each update; predictions inside use of averages"])
p("P12","Schedules produce their documented series",
 "Each built-in schedule gives, at every step, the value of its documented formula for every valid parameter setting, including the boundaries (step zero, warm-up and cut points, the final step and beyond), without error and without depending on which steps were asked before; a plateau-based schedule depends only on the sequence of reported scores. Turning a schedule into a generator gives the values at successive steps from the requested start and stride, and composed schedules delegate with the documented step.",
 ["inputs","histories"],"schedule parameters x step sequences (random access, repeats) x score histories",
 "Tests compare the first few values of one setting.",
 ["thinc/schedules.py","thinc/optimizers.py"],
 [("schedule functions","thinc/schedules.py"),("generator wrapping","thinc/optimizers.py")],
 observe=["values returned by calling the schedule and its generator"])
p("P13","Activation kernels equal their mathematical definition everywhere",
 "Every activation and its derivative on the CPU backend equals its documented mathematical function (as documented: sigmoid saturates at +-20, gelu uses an approximation of erf good to 1.5e-7) for all finite inputs, including large magnitudes, zeros and clipping points, in single and double precision and any number of dimensions. The result does not depend on memory layout (strided, transposed, Fortran-ordered, sliced) nor on the backend implementation used, and the in-place form gives the same values, in the array it was given, while the normal form leaves its arguments alone.",
 ["inputs","configurations"],"value ranges x dtypes x shapes x memory layouts x in-place flag x backend implementation",
 "Tests compare forward/backward on contiguous float arrays in a narrow range.",
 ["thinc/backends/ops.py","thinc/backends/numpy_ops.pyx","thinc/backends/cpu_kernels.hh"],
 [("activation ops","thinc/backends/ops.py"),("native kernels","thinc/backends/numpy_ops.pyx, cpu_kernels.hh")],
 observe=["values returned by ops methods; arrays before and after"])
p("P14","Structured array operations equal their reference definition",
 "Matrix products, affine maps, softmax over rows and over sequences, maxout, layer statistics, window extraction, ragged reductions (sum, mean, max, first, last), gather-add/scatter-add, n-grams, hashing, clipping, cosine similarity, allocation and type conversion give exactly what their definition over individual elements and sequences gives, forwards and backwards, for all valid shapes, including empty batches, zero-length and length-one sequences, ties and extreme values. Results do not depend on memory layout, dtype of equal values, or which CPU implementation is used; outputs supplied by the caller are filled, and invalid lengths or indices are refused.",
 ["inputs","configurations"],"shapes x sequence-length patterns x dtypes x layouts x implementations",
 "Tests use fixed small arrays; empty, tied, strided and boundary shapes are mostly absent.",
 ["thinc/backends/ops.py","thinc/backends/numpy_ops.pyx","thinc/backends/cpu_kernels.hh","thinc/backends/cblas.pyx"],
 [("ops methods","thinc/backends/ops.py, numpy_ops.pyx"),("native loops","thinc/backends/cpu_kernels.hh")],
 observe=["values and shapes returned versus element-wise references"])
p("P15","Native kernels never access memory outside their arrays",
 "No call into the compiled extension, whatever array shapes, strides, dtypes, lengths, indices or values are passed, reads or writes outside the arrays it was given, reads uninitialised results into its output, or invokes undefined arithmetic; it either computes the result or raises an ordinary exception. In particular negative or too large indices, lengths that do not match the data, zero-sized dimensions and mismatched companion arrays are refused or handled.",
 ["inputs","histories"],"hostile and random arguments to every compiled entry point, under address and undefined-behaviour sanitizers, and repeated/concurrent use",
 "Tests pass well-formed arguments and have no instrumentation: an out-of-bounds read passes silently.",
 ["thinc/backends/numpy_ops.pyx","thinc/backends/cpu_kernels.hh","thinc/layers/sparselinear.pyx","thinc/layers/premap_ids.pyx","thinc/backends/cblas.pyx"],
 [("bounds/shape validation","thinc/backends/numpy_ops.pyx"),("raw-pointer loops","thinc/backends/cpu_kernels.hh")],
 observe=["ASan/UBSan reports while the real extension runs"])
p("P16","Sequence-format conversions lose nothing and keep order",
 "Converting a batch of sequences between list, ragged, padded and flat form and back gives the original batch: same order, lengths, values, dtype and trailing shape, for any lengths including zero, ties and an empty batch. The padded form is sorted by decreasing length with consistent step sizes, lengths and indices and zero padding; a conversion layer's callback is the inverse conversion of the gradient. Padding to a multiple and flattening with separators place every item exactly where documented.",
 ["inputs"],"batches of sequences with arbitrary lengths, ranks, dtypes and padding options",
 "Tests use a few fixed batches with two-dimensional float arrays.",
 ["thinc/backends/ops.py","thinc/backends/numpy_ops.pyx","thinc/types.py"]+[L+x for x in ["list2array.py","list2padded.py","list2ragged.py","padded2list.py","ragged2list.py"]],
 [("flatten/unflatten/pad/unpad/list2padded/padded2list","thinc/backends/ops.py"),("conversion layers",L+"*2*.py")],
 observe=["round-trip results and internal index arrays"])
p("P17","Wrapped layers give the same answer in every sequence format",
 "A layer wrapped for arrays, lists, ragged or padded batches gives, for every input format it accepts, the same values per sequence item, returned in the format it was given, both in the output and in the input gradient; parameter gradients are the same too. Padding values never influence the results for real items, and sequence structure (order, lengths) is preserved.",
 ["inputs","configurations","programs"],"wrappers x inner layers x input formats x length patterns",
 "Tests mostly check the output type with a no-op or trimming layer.",
 [L+x for x in ["with_array.py","with_array2d.py","with_list.py","with_ragged.py","with_padded.py","with_flatten.py","with_flatten_v2.py"]],
 [("format dispatch",L+"with_*.py")],
 observe=["outputs and gradients of the same data fed in each format"])
p("P18","Minibatching yields every item exactly once, aligned",
 "Iterating minibatches over one or several parallel sequences (lists, arrays, ragged batches or pairs), with fixed, listed, generated or scheduled sizes, with or without shuffling and buffering, yields every item exactly once, keeps parallel sequences aligned (padded batches through the original-position labels of their columns), respects the requested sizes with only the last batch smaller, and keeps the original order when not shuffling. Iterating again restarts, the reported number of batches matches what is produced for fixed sizes, and the source data is unchanged.",
 ["inputs","histories"],"dataset sizes x batch-size sources x container types x shuffle/buffer settings x repeated iteration",
 "Tests iterate a few fixed lists.",
 ["thinc/backends/ops.py","thinc/types.py","thinc/util.py"],
 [("minibatch/multibatch","thinc/backends/ops.py"),("SizedGenerator","thinc/types.py")],
 observe=["item ids seen in each batch"])
p("P19","Losses and their gradients match their definitions",
 "For every valid batch of guesses and truths - integer, one-hot, soft, named and missing labels, negative labels, label smoothing, sequences, normalised or not - each loss returns the value of its documented formula and the gradient its definition gives, with missing items contributing nothing; computing both at once agrees with computing each. Losses leave guesses and truths unchanged, a sequence loss equals the losses of its items, and mismatched shapes and unknown or too large labels are refused.",
 ["inputs","configurations"],"loss configurations x batches of guesses and truths of every accepted form",
 "Tests compare a few hand-computed values.",
 ["thinc/loss.py","thinc/util.py"],
 [("get_grad/get_loss","thinc/loss.py"),("to_categorical","thinc/util.py")],
 observe=["values returned, arrays before and after"])
p("P20","Embedding and id-mapping layers address rows exactly",
 "For all ids (any valid integer, in any order, repeated, or an empty batch), embedding layers return exactly the rows their tables hold for those ids - hashed embeddings the sum of the rows given by the documented hashes of id and seed - and back-propagation adds each item's gradient to exactly those rows. Id mapping sends every known key to its value and everything else to the default; de-duplicating ids changes neither results nor gradients; sparse linear layers equal their dense definition. Results depend only on ids, seed and table.",
 ["inputs","configurations"],"ids over the whole integer range, repeated/unknown/empty, x seeds, columns, dropout and table sizes",
 "Tests use a few small ids, mostly checking shapes.",
 [L+x for x in ["embed.py","hashembed.py","uniqued.py","remap_ids.py","premap_ids.pyx","sparselinear.pyx","strings2arrays.py"]]+["thinc/backends/numpy_ops.pyx","thinc/backends/ops.py"],
 [("gather/scatter",L+"embed.py"),("hash and gather_add","thinc/backends/numpy_ops.pyx"),("PreshMap lookup",L+"premap_ids.pyx")],
 observe=["outputs and table gradients versus a per-row reference"])
p("P21","Initialisation infers shapes consistently or fails loudly",
 "Initialising any valid composition with sample input and output (or with enough dimensions given up front; output samples reach the last layer of a chain) sets every dimension that its layers have to the value the data implies, allocates every parameter with exactly the shape its dimensions imply, and makes the model usable on further batches of that width. A set dimension never changes silently: conflicting data or assignments raise an error and leave it as it was. Given dimensions are never altered and initialising does not modify the samples.",
 ["programs","configurations","inputs"],"random compositions x which dimensions are given x sample data forms",
 "Tests initialise fixed models; the inference must agree for every composition and partial specification.",
 ["thinc/model.py","thinc/util.py",L+"chain.py",L+"concatenate.py",L+"*.py"],
 [("init functions",L+"*.py init()"),("set_dim conflict check","thinc/model.py"),("get_width","thinc/util.py")],
 observe=["dims and parameter shapes after initialisation; predictions' shapes"])
p("P22","Dropout acts only in training, unbiased, and consistently backwards",
 "When predicting, or with rate zero or dropout disabled, dropout passes its input through unchanged. In training each element is either zeroed or scaled by one over the keep probability, with the configured frequency and an unbiased mean, independently drawn on each call, and the callback applies the same mask to the gradient (embedding layers draw one mask value per column, LSTM layers drop weights); container structure is kept. Changing the rate later takes effect at the next call, in every layer that has it, and layers with built-in dropout behave the same way.",
 ["inputs","configurations"],"rates x container types x layers with dropout x sequences of rate changes",
 "Tests check a single rate and shape; masks are random, so equality with the backward mask must hold per call.",
 [L+"dropout.py",L+"embed.py",L+"hashembed.py",L+"maxout.py",L+"relu.py",L+"mish.py","thinc/backends/ops.py","thinc/model.py"],
 [("get_dropout_mask","thinc/backends/ops.py"),("mask captured in callback",L+"dropout.py")],
 observe=["ratio output/input and gradient-in/gradient-out per element"])
p("P23","Building from configuration equals building in code",
 "Resolving a configuration that names registered layers, initialisers, optimizers, schedules, losses or operators gives an object that behaves identically to calling the registered function directly with those arguments, defaults included, for arbitrary nesting and references between sections. Every registered name resolves, interpolation and overrides replace exactly the addressed values, a configuration survives conversion to and from text, bytes and disk unchanged, unknown names raise an error naming them, and missing or wrong-typed arguments (after the documented casting of castable values) raise the configuration error, or for hyper-parameters of optimizers a ValueError.",
 ["configurations","programs"],"nested configurations over all registered functions x overrides x serialisation forms",
 "Tests resolve a few hand-written configurations.",
 ["thinc/config.py","thinc/layers/__init__.py","thinc/optimizers.py","thinc/schedules.py","thinc/initializers.py","thinc/loss.py"],
 [("registry decorators","thinc/config.py and every registered function"),("resolve/fill (confection)","thinc/config.py")],
 observe=["structure, parameters and behaviour of resolved versus directly built objects"])
p("P24","Batch containers index consistently",
 "Indexing a ragged batch, a padded batch or aligned pairs with an integer (also negative), any slice or an index array gives exactly the sequences that the same index selects from the list of sequences, with matching lengths, data and trailing shape, in the same order, as a consistent container (for padded batches: the selected columns, kept sorted by length with their original-position labels); building arguments containers from their items and iterating them is lossless. Copies are independent of the original.",
 ["inputs"],"length patterns x ranks x integer, slice and array indices",
 "Tests index one fixed ragged batch and never check negative, open or stepped slices or padded batches.",
 ["thinc/types.py"],
 [("Ragged.__getitem__/starts_ends","thinc/types.py"),("Padded.__getitem__","thinc/types.py"),("Pairs, ArgsKwargs, SizedGenerator","thinc/types.py")],
 observe=["indexed containers versus list indexing"])
p("P25","Items of a batch do not influence each other",
 "In prediction mode, every layer that works row by row gives each row the same output whatever other rows are in the batch, and every sequence layer gives each sequence the same output whatever other sequences are batched with it and in whatever order; so splitting, joining, permuting or padding a batch only splits, joins or permutes the output. The same holds for input gradients, and parameter gradients of a joined batch are the sum of those of its parts.",
 ["inputs","programs"],"layers and compositions x splits/permutations of batches, incl. empty and single items",
 "Tests never compare different batchings of the same items.",
 [L+"*.py","thinc/backends/ops.py","thinc/backends/numpy_ops.pyx"],
 [("row-wise kernels","thinc/backends/numpy_ops.pyx, ops.py"),("sequence boundaries","seq2col lengths, reduce_*, lstm size_at_t")],
 observe=["outputs and gradients per item across batchings"])
p("P26","Recurrent layers compute the LSTM recurrence per sequence",
 "For any batch of padded or listed sequences, the LSTM layers output the standard LSTM recurrence (uni- or bidirectional, stacked) over each sequence's own steps, in order, from the (untrained) initial state, independent of padding and of other sequences, in prediction and in training mode alike. Training leaves the true gradient of every gate weight and bias, the callback returns that of the input, and bidirectional wrappers run one layer forwards and one over the reversed sequence, re-aligned to the original order.",
 ["inputs","configurations"],"lengths patterns x depths x directions x widths",
 "Tests check output shapes and a few fixed values.",
 [L+"lstm.py",L+"bidirectional.py","thinc/backends/numpy_ops.pyx","thinc/backends/ops.py"],
 [("lstm forward/backward","thinc/backends/numpy_ops.pyx, ops.py"),("reversal",L+"bidirectional.py")],
 observe=["outputs and gradients versus an independent float64 recurrence"])
p("P27","Wrapped PyTorch models behave as native layers",
 "A wrapped PyTorch model gives in thinc exactly the outputs PyTorch gives, the input and parameter gradients of PyTorch's autograd, (None for integer or unused inputs, a tuple for a list of inputs), and updates equal to applying the optimizer to each torch parameter, on the CPU; converters keep values, structure and dtypes both ways. Wrapped models chain with native layers, survive saving, loading and copying with their weights, honour evaluation versus training mode, and temporary or averaged parameters reach them like any other layer. With gradient scaling, training gives the same gradients and parameters as without, whatever the scale and however many backward passes an update accumulates; an update with an overflow is skipped and the scale follows its documented schedule.",
 ["programs","inputs","histories"],"torch modules x input structures (arrays, lists, tuples, ragged, padded, keyword arguments) x train/predict/save/copy/update histories",
 "Tests wrap one linear module and mostly check types and that nothing crashes.",
 ["thinc/shims/pytorch.py","thinc/shims/shim.py","thinc/shims/pytorch_grad_scaler.py",L+"pytorchwrapper.py",L+"torchscriptwrapper.py","thinc/util.py"],
 [("shim begin_update/predict","thinc/shims/pytorch.py"),("gradient scaler","thinc/shims/pytorch_grad_scaler.py"),("converters",L+"pytorchwrapper.py"),("xp2torch/torch2xp","thinc/util.py")],
 observe=["outputs, gradients and parameters versus plain torch"])
p("P28","Layers compute their documented function",
 "In prediction mode every built-in layer returns exactly what its documentation defines from its parameters and input - dense layers with each activation, maxout, normalisation, softmax with temperature and unnormalised mode, window expansion, pooling, attention, clipping, similarity - for all parameter values and inputs, also after parameters are changed by assignment, training or loading; the training-mode output is the same whenever no dropout is active.",
 ["inputs","configurations"],"layers x configurations x parameter values x inputs",
 "Tests compare shapes, or values for Linear and Softmax at one setting.",
 [L+"*.py"],
 [("layer forward",L+"*.py forward()")],
 observe=["predict/begin_update outputs versus float64 definitions"])
p("P29","Randomness is reproducible from the seed and initialisers are correct",
 "After fixing the random seed, building, initialising and training the same model on the same data gives bit-identical parameters, gradients, dropout masks, shuffles and predictions, in the same process or a new one (hashed embeddings being given their seed). Each built-in initialiser returns a fresh float array of the requested shape with the documented distribution (bounds, mean, spread), configured lazily or directly with the same result.",
 ["programs","histories","configurations"],"training programs repeated under equal seeds, in the same and new processes, x initialisers x shapes x settings",
 "Tests check single draws; reproducibility must hold for the whole program whatever ran before.",
 ["thinc/util.py","thinc/initializers.py","thinc/backends/ops.py",L+"dropout.py"],
 [("fix_random_seed","thinc/util.py"),("initializers","thinc/initializers.py")],
 observe=["digests of parameters/masks/batches; statistics of draws"])
p("P30","Data validation accepts exactly well-typed samples and changes nothing",
 "With validation switched on, initialising a model with samples that match the annotated types succeeds and gives exactly the model that initialising without validation gives, while samples of the wrong kind, rank or dtype (lists judged by their first items) raise the validation error before any parameter is allocated in that layer. Array type checks and width, category and conversion helpers accept and reject exactly as documented for every rank, dtype and nesting, and nested conversion preserves structure and every non-matching value.",
 ["inputs","configurations"],"layers x valid and invalid samples x validation on/off; helper arguments of every kind",
 "Tests try two or three wrong inputs.",
 ["thinc/util.py","thinc/types.py","thinc/model.py"],
 [("validate_fwd_input_output","thinc/util.py"),("validate_array","thinc/types.py"),("get_width/to_categorical/convert_recursive","thinc/util.py")],
 observe=["acceptance or error, resulting model state, helper results"])
p("P31","The type-checker plugin flags exactly the layers that do not fit together",
 "When a program is checked with mypy and the library's plugin, every call that combines layers is analysed by the declared input and output types of its arguments: where chain is given neighbouring layers of which the first's output type is not compatible with the second's input type, and where add or concatenate are given neighbouring layers with different input or different output types, both arguments are reported, with the documented error code and the two types, whatever the number of arguments; where they fit nothing is reported by the plugin; and the combined model has the input type of the first layer and the output type of the last (for add and concatenate, of the first). This also holds for user-defined combinators annotated with the same type variables, for nested and keyword calls and inside functions, and calls the plugin cannot analyse neither crash the checker nor produce reports.",
 ["programs","inputs"],"programs of combinator calls x declared types x argument counts x call forms",
 "Tests compare the checker's output for four fixed files with a handful of calls.",
 ["thinc/mypy.py","thinc/types.py",L+"chain.py",L+"add.py",L+"concatenate.py"],
 [("get_reducers_type","thinc/mypy.py"),("check_chained/check_intoin_outtoout","thinc/mypy.py")],
 observe=["reports per argument line and revealed types of a real mypy run versus an independent model of type compatibility"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
