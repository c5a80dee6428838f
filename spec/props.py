AI = "abstract interpretation with trace partitioning over the syntax trees of constructor, forward and backward pass"
LN = ("Every path of every layer constructor, its forward pass and its backward callback is analysed from source (branches on unknown "
      "conditions are partitioned, loops over unknown sequences analysed for two iterations, variadic layers for one to three children). "
      "Assumes the summaries of array-library and Ops calls listed in DESIGN.md; numeric values are not computed.")

prop("G01", "A layer's backward pass is the adjoint, in structure, of its forward pass",
     "For every layer, if the input, the output of a sub-layer or a trained parameter influences the output, then the gradient of the output flows back into the gradient of that source; and no gradient flows where no value flowed. Where values are multiplied, each gradient uses the other factor as it was in the forward pass, including the very same random mask.",
     ["inputs", "programs", "configurations"],
     "for every layer the library can build, every combination of its options, every kind of input container and every path through its forward and backward pass",
     "Tests check gradients of a few layers at a few shapes numerically; most combinators, containers (list, ragged, padded) and options (dropout, normalisation) are never gradient-checked.",
     ["thinc/layers"],
     [("forward functions and the callbacks they return", "thinc/layers/*.py, thinc/layers/*.pyx"), ("gradient summation of fan-out layers", "thinc/util.py add_gradients")],
     technique=AI + "; value-flow dependence compared in both directions", note=LN)

prop("G02", "Backward operations use the values and settings of the forward ones",
     "Whenever a layer differentiates an operation, it does so with the input or output that operation actually had in the forward pass and with the same settings. Rearrangements of a batch (flattening, padding) are undone with the same lengths and padding they were done with.",
     ["inputs", "configurations"], "for every layer, option and path through forward and backward pass",
     "A wrong saved value or setting only shows for non-default options (slopes, offsets, padding, temperature), which tests rarely differentiate.",
     ["thinc/layers", "thinc/backends/ops.py"], [("operation / backprop_operation pairs", "thinc/backends/ops.py"), ("layers calling them", "thinc/layers/*.py")],
     technique=AI + "; pairing of operations with their backward counterparts by resolved signature", note=LN)

prop("G03", "Each parameter a layer uses gets exactly one gradient contribution per pass",
     "Whenever a layer's backward callback runs, every parameter that influenced the output receives exactly one accumulated gradient contribution, computed from the incoming gradient. Parameters that did not influence the output receive none.",
     ["inputs", "configurations"], "for every layer with parameters, every option and every path",
     "Tests train a few layers end to end; a parameter that silently gets no gradient or a doubled one still passes them.",
     ["thinc/layers"], [("gradient accumulation in callbacks", "thinc/layers/*.py"), ("the accumulating store", "thinc/model.py, thinc/backends/_param_server.py")],
     technique=AI + "; counting of accumulation effects per path", note=LN)

prop("G04", "Backward pass runs each sub-layer's callback exactly once",
     "For every layer made of other layers, on every path of the backward pass, the callback of every sub-layer that ran in the forward pass is called exactly once.",
     ["inputs", "configurations", "programs"], "for every composite layer, any number of sub-layers, every kind of input",
     "Tests of combinators look at outputs and mostly at two sub-layers of one kind; skipping or repeating a callback changes only gradients.",
     ["thinc/layers"], [("composite forward functions", "thinc/layers/chain.py, add.py, concatenate.py, tuplify.py, map_list.py, siamese.py, bidirectional.py, residual.py, with_*.py")],
     technique=AI + "; callback effects counted on each path", note=LN)

prop("G05", "Layers never overwrite data they do not own",
     "Running a layer forward or backward never modifies the caller's input, the incoming gradient, a parameter, or an array a sub-layer returned. The backward callback does not modify anything the forward pass saved, so calling it again gives the same result.",
     ["inputs", "histories", "configurations"], "for every layer, option, input container and path, and any order of repeated calls",
     "Aliasing bugs need a particular composition (e.g. a sub-layer that returns its input unchanged) to show; tests use fresh arrays once.",
     ["thinc/layers", "thinc/backends/ops.py"], [("in-place operations in forward and backward passes", "thinc/layers/*.py"), ("operations with an in-place option", "thinc/backends/ops.py")],
     technique=AI + "; may-alias analysis of every write", note=LN)

prop("G06", "Predicting or training forward leaves the model unchanged",
     "Running a model on data changes no parameter, gradient, dimension, attribute, reference or structure of any layer, nor any global state. Running the backward callback changes nothing but gradients, and those only by accumulation.",
     ["inputs", "histories"], "for every layer, option and path, in any history of calls",
     "A state change on a rare path is only visible in a later call of the same model, which per-layer tests do not make.",
     ["thinc/layers", "thinc/model.py"], [("forward functions and callbacks", "thinc/layers/*.py"), ("model state", "thinc/model.py Model")],
     technique=AI + "; effect analysis on model state", note=LN)

prop("G07", "Training/prediction mode reaches every sub-layer unchanged",
     "Every layer that runs other layers or wrapped framework models passes them the training flag it was called with.",
     ["inputs", "configurations"], "for every composite layer, option and input container",
     "Only layers that behave differently in training (dropout, wrapped models) reveal a lost flag; tests rarely nest those in every combinator.",
     ["thinc/layers"], [("composite forward functions", "thinc/layers/*.py")],
     technique=AI + "; value tracking of the training flag to every sub-layer call", note=LN)

prop("L01", "Every constructor option takes effect where it says it does",
     "Every argument of a layer constructor influences the model that is built, and every setting stored in a model influences what the model computes. A dimension, setting or initializer named like an argument is computed from that argument; layers that wrap a callable pass on the options they were given.",
     ["configurations"], "for every layer constructor in the registry and every combination of its options",
     "Tests construct layers mostly with default options; an argument that is dropped or sent to the wrong place changes nothing they look at.",
     ["thinc/layers"], [("layer constructors and their closures", "thinc/layers/*.py, thinc/layers/*.pyx")],
     technique="value-flow analysis from constructor arguments to model structure, closures and observable behaviour", note=LN)

prop("L02", "Initialisation defines every dimension and parameter with agreeing shapes",
     "Initialising a layer sets every dimension it can infer from the sample data from the right array (input dimensions from X, output dimensions from Y), passes sample data to every sub-layer that needs it, and allocates every parameter the forward pass reads, from the layer's own dimensions and with the layer's own initializer. Initialising twice allocates nothing twice and never changes a dimension already set.",
     ["inputs", "configurations"], "for every layer with an initialisation, with X, Y, both or neither given, dimensions set or unset",
     "Tests initialise most layers with one kind of sample data and fully specified dimensions.",
     ["thinc/layers", "thinc/model.py"], [("init functions", "thinc/layers/*.py"), ("initializers", "thinc/initializers.py")],
     technique="abstract interpretation of constructors and init functions; value flow of sample data, dimensions and initializers; may-read / must-define comparison of parameters", note=LN)

prop("L03", "Layers accept and return the container types they were given",
     "A layer that accepts several kinds of sequence data (list, Ragged, Padded, pair, plain array) returns the kind it was given, returns gradients in the kind of its input, and preserves lengths, order and bookkeeping arrays of the container.",
     ["inputs", "configurations"], "for every layer that distinguishes containers, every accepted kind, forward and backward",
     "Tests use one or two kinds per layer and small batches in which permuted or exchanged lengths go unnoticed.",
     ["thinc/layers", "thinc/types.py"], [("with_* transformers and sequence layers", "thinc/layers/with_*.py, reduce_*.py, list2*.py, ragged2list.py, padded2list.py")],
     technique="abstract interpretation with container-typed inputs; type and provenance of every output component", note=LN)

HP = "abstract interpretation with a heap (object identity, exceptions, generators, context variables) of public operations on representative object graphs"
HN = ("The public operations are analysed from source on an abstract model with nested and shared nodes, every entry set and unset; array values and external calls stay "
      "uninterpreted, branches on unknown conditions are partitioned. The representative graph bounds the number of nodes, not the values in them; "
      "assumes the summaries of external calls listed in DESIGN.md.")

prop("M01", "Whole-model operations reach every node exactly once",
     "Walking a model visits every node reachable through its layers exactly once, in the requested order (breadth first, parents before children, or children before parents), also when nodes are shared. Operations on a whole model (update of the parameters, collection of gradients, dropout rate, change of attributes, transfer to a device, removal and replacement of a node, recursive wrapping) act exactly once on every node, parameter and shim concerned and leave everything else unchanged, references included.",
     ["programs", "histories"], "for every model structure, including layers shared between several parents, and every set of parameters with a gradient",
     "Tests walk small trees; sharing at several levels, and what must stay untouched, is not checked.",
     ["thinc/model.py"], [("walking", "thinc/model.py Model.walk"), ("updates", "thinc/model.py finish_update, get_gradients, _to_ops, remove_node, replace_node, set_dropout_rate, change_attr_values, wrap_model_recursive")],
     technique=HP + "; reached nodes and effects compared with the structure of the model", note=HN)

prop("M02", "A saved model is restored exactly, and data that does not fit is rejected",
     "Reading what to_dict, to_bytes or to_disk wrote into a model of the same structure restores names, dimensions, references, attributes, parameters and shims of every node, into arrays of its own; parameters and references that were unset are unset afterwards. Writing changes nothing. Arrays are written in one byte order. Data for a model with another number of nodes is rejected without changing the model, and can_from_dict / can_from_bytes / can_from_disk tell without changing anything whether data fits.",
     ["programs", "histories", "configurations"], "for every model structure, every combination of set and unset dimensions, parameters and references, and any state of the model that reads",
     "Tests round-trip a few models with everything set into fresh copies of themselves.",
     ["thinc/model.py"], [("serialisation", "thinc/model.py to_dict, from_dict, to_bytes, from_bytes, to_disk, from_disk, can_from_*"), ("attributes", "thinc/model.py serialize_attr, deserialize_attr"), ("shims", "thinc/shims/shim.py")],
     technique=HP + "; the state after reading compared entry by entry with the state that was written", note=HN)

prop("M03", "A copied model is equal to and independent of the original",
     "copy() duplicates every node, parameter, gradient, dimension, attribute, reference and shim and keeps which layers are shared. Every copied node and shim has a new id. No array, container, attribute or shim is shared with the original: changing either leaves the other as it was. Copying a part of a model copies exactly that part.",
     ["programs", "histories"], "for every model structure and any later history of changes to either copy",
     "Sharing between copies only shows after one of them is changed, which tests do for parameters only.",
     ["thinc/model.py", "thinc/shims"], [("copying", "thinc/model.py Model.copy"), ("shims", "thinc/shims/shim.py Shim.copy")],
     technique=HP + "; aliasing between the reachable objects of copy and original", note=HN)

prop("M04", "Temporary changes are undone however a scope is left",
     "Operators, parameter values, the backend, the validation flag, temporary files, profiling ranges and the evaluation mode of wrapped framework models that a scope changes are put back exactly as they were found when it is left, whether normally, by an exception in its body, or by a failure of any call while it is entered. Scopes nest. Inside the scope the requested values hold, for exactly what was requested.",
     ["histories", "fault_sequences", "programs"], "for every scope, nesting, and point at which an exception arises",
     "Tests leave scopes normally; the states after an exception at each possible point are not sampled.",
     ["thinc/model.py", "thinc/util.py", "thinc/backends/__init__.py", "thinc/shims"],
     [("context managers", "thinc/model.py define_operators, use_params; thinc/backends/__init__.py use_ops; thinc/util.py make_tempfile, data_validation, use_nvtx_range"), ("framework modes", "thinc/shims/*.py predict, use_params")],
     technique=HP + "; state before and after compared, with an exception injected at the body and at every call out of the package; control-flow rule over every context manager", note=HN)

prop("M05", "Node entries are never silently missing, wrong or changed",
     "Reading a dimension, parameter, gradient or reference that a node does not have, or that is unset, raises; the has_ and maybe_ accessors tell absent, unset and set apart (a dimension of size 0 is set); none of them changes the node. A set dimension is never changed to another value except by force while no parameter is allocated, and a rejected change leaves the node as it was. A reference can only point to a node inside the model.",
     ["inputs", "histories"], "for every name and value and any state of the node",
     "Tests check the errors for one name; that rejected operations leave no trace, and values such as 0, are not covered.",
     ["thinc/model.py"], [("accessors", "thinc/model.py get_*, set_*, has_*, maybe_get_*")],
     technique=HP + "; exceptional paths and state after them", note=HN)

prop("M06", "Every model and shim has an id of its own, whatever thread makes it",
     "Every model and every shim, of whatever subclass and created in whatever thread, gets an id that no other one has: the counter of the base class is advanced and read in one critical section of the lock of that class.",
     ["schedules", "histories"], "for every interleaving of threads that create models and every subclass",
     "Races on the counter need a particular interleaving; single-threaded tests cannot show them.",
     ["thinc/model.py", "thinc/shims/shim.py"], [("id counters and their locks", "thinc/model.py Model.__init__, thinc/shims/shim.py Shim._set_new_id")],
     technique="lock-set analysis of every access to the id counters; " + HP, note=HN)

prop("M07", "No hidden sharing of mutable state between objects",
     "Constructors copy the collections they are given, so that later changes to either side do not show on the other. Objects created with default arguments share no mutable state. No function of the package modifies, stores or returns a mutable default argument, and no method changes a mutable class attribute shared by its instances.",
     ["histories", "programs"], "for every function and class of the package and any history of calls",
     "Sharing shows only when a second object is created after the first was changed.",
     ["thinc"], [("constructors", "thinc/model.py Model.__init__, thinc/shims/shim.py, thinc/backends/_param_server.py"), ("functions with mutable defaults", "thinc/**/*.py")],
     technique="escape analysis of mutable defaults and class attributes over the whole package; " + HP, note=HN)

prop("M08", "Each model operator calls exactly the function bound to it",
     "Inside define_operators, every overloaded operator of Model calls the function bound to its own symbol, with both operands in order, and returns its result. An operator that is not bound raises TypeError. The operands are not changed.",
     ["programs", "configurations"], "for every operator and every set of bound operators",
     "Tests bind most operators to the same kind of function; exchanged symbols or operands go unnoticed for commutative ones.",
     ["thinc/model.py"], [("operator methods", "thinc/model.py Model.__add__ ... __or__")],
     technique=HP + "; call target and argument order of each operator method", note=HN)

prop("M09", "Gradients accumulate per parameter and never alias the caller's arrays",
     "Adding a gradient to a parameter adds to what was added before since the last update. The first contribution is stored as a copy, so that clearing the gradient never clears an array of the caller. No other parameter, gradient or node is affected. With a remote parameter server, every operation goes to it with the node id, name and value.",
     ["histories", "inputs"], "for every order of gradient contributions to any parameters of any nodes",
     "Tests add one gradient to one node; the alias shows only when the caller keeps its array.",
     ["thinc/model.py", "thinc/backends/_param_server.py"], [("accumulation", "thinc/backends/_param_server.py inc_grad"), ("per-node access", "thinc/model.py inc_grad, set_grad, get_grad")],
     technique=HP + "; aliasing and provenance of the stored gradient", note=HN)

ON = ("The optimizer and the schedules are analysed from source with uninterpreted arrays, settings and scores; branches on unknown values are partitioned. Histories "
      "of up to five updates of two or three parameters (and up to seven evaluation scores) stand for longer ones. Arithmetic is compared as rational functions over the reals "
      "(rounding is not considered); the summaries of Ops calls are listed in DESIGN.md.")

prop("O01", "Parameters are optimized independently of each other",
     "The update of a parameter is the same whether or not other parameters were updated before or in between: moments, averages, update counts and cached values belong to one key. Bias correction counts the updates of that parameter, so with constant settings the step of the optimizer changes nothing.",
     ["histories"], "for every order of updates of any parameters and any steps in between",
     "Tests update one parameter, mostly once; mixed-up state shows only for interleaved updates of several keys.",
     ["thinc/optimizers.py"], [("update", "thinc/optimizers.py Optimizer.__call__, _adam, _radam")],
     technique="abstract interpretation with a heap; relational comparison of the value and effect of an update after two histories", note=ON)

prop("O02", "An update uses and clears the gradient and applies every setting once",
     "A call of the optimizer changes the weights in place from the gradient and returns both; the gradient array is zeroed in place after its last use. Learning rate, its scale, L2, betas, eps and clipping take effect on every branch that uses them; L2 acts either on the gradient before the update (and before clipping) or as weight decay after it. Every schedule gets the step, the key of the parameter and the last score. The average of exactly this parameter is updated once per call, from the weights after the update, as an array of its own.",
     ["inputs", "configurations"], "for every combination of settings, scheduled or constant, and any values",
     "Tests check that training runs; a setting ignored on one branch, or a gradient that is left over, still trains.",
     ["thinc/optimizers.py"], [("update", "thinc/optimizers.py Optimizer.__call__, _adam, _radam, _schedule_args")],
     technique="abstract interpretation with a heap; provenance of the written weights, in-place effects and their order", note=ON)

prop("O03", "Optimizer settings mean what was given",
     "Adam, RAdam, SGD and Optimizer hand each setting to the update under its own name, and settings that are not given have the listed defaults. A number becomes a constant schedule; a list or generator gives one value per step, keeps its last value, can skip steps but not go back; a schedule is used as it is; anything else is refused. A score is stored with the step it was set at.",
     ["inputs", "configurations", "histories"], "for every setting of every constructor and every kind of value",
     "Tests construct the optimizers with the defaults and one value.",
     ["thinc/optimizers.py"], [("constructors", "thinc/optimizers.py Adam, RAdam, SGD, Optimizer.__init__, _set_attr_or_schedule, _wrap_generator")],
     technique="abstract interpretation with a heap (generators included): flow of every argument into the schedule read by the update", note=ON)

prop("S01", "Schedules follow their definition at every step",
     "The value of a schedule at a step follows its documented formula for every step and all arguments and does not depend on the steps asked for before. A schedule that wraps another passes on the step and everything the caller passed, including the last score. Negative steps, starts and step sizes are refused. to_generator yields the values at start, start + step_size and so on, with the extra arguments. Two schedules share no state.",
     ["inputs", "histories"], "for every step, every argument and every order of calls",
     "Tests compare a few values of a few schedules.",
     ["thinc/schedules.py"], [("schedules", "thinc/schedules.py registered constructors and their functions"), ("call and generator", "thinc/schedules.py Schedule.__call__, to_generator")],
     technique="abstract interpretation with a heap; canonical forms of rational functions compared with the documented formula in every branch", note=ON)

prop("S02", "The plateau schedule counts evaluations without improvement",
     "After every history of evaluations, the plateau schedule gives scale**n times the wrapped value, where n counts how often max_patience evaluations in a row brought no new best score. The same evaluation seen again does not count, no score changes nothing, and a score from an earlier step is refused.",
     ["histories"], "for every history of scores",
     "Tests follow one or two histories.",
     ["thinc/schedules.py"], [("plateau", "thinc/schedules.py _plateau_schedule")],
     technique="abstract interpretation with a heap; state transitions under partitioned score comparisons checked against the definition", note=ON)

prop("E01", "Losses give matching gradients and values and leave their inputs alone",
     "Calling a loss gives exactly what get_grad and get_loss give, and changes neither guesses nor truths (also not a list of labels). Results are given only for guesses and truths of the same shape, sequences of the same length and probabilities within [0, 1]. With normalize the gradient is divided by the number of guesses, without it is not; the loss uses the same normalization and masking. Missing values get no gradient; a negated label has a target of zero and no gradient for the other classes. Smoothed targets sum to one. Every registered loss gets the settings it was configured with.",
     ["inputs", "configurations"], "for every kind of truths, every setting and any values",
     "Tests check values for small arrays; the caller's arrays afterwards, combinations of settings and rejected inputs are not covered.",
     ["thinc/loss.py", "thinc/util.py"], [("losses", "thinc/loss.py get_grad, get_loss, convert_truths"), ("targets", "thinc/util.py to_categorical")],
     technique="abstract interpretation with a heap; aliasing and write effects, relational comparison of the two entry points, canonical forms of rational functions",
     note="Losses are analysed from source with uninterpreted arrays; label lists of four labels (a class, a missing value, a negated class, a class) and sequences of two stand for longer ones. Rounding is not considered.")

prop("T01", "Indexing a container selects the same sequences in all its arrays",
     "Indexing a Padded selects the same sequences in the data, lengths and indices, keeps the batch axis and recomputes the batch sizes from the selected lengths. Indexing a Ragged gives the selected lengths and exactly the rows of those sequences in the shape of the original. Negative integers count from the end; open, stepped and empty slices, and lists with repeats, select what they select in a list. Pairs select both sides; ArgsKwargs lists its arguments in call order and is restored by from_items; a SizedGenerator starts afresh in every iteration. No array of the container changes; a copy shares none.",
     ["inputs"], "for every index and any contents",
     "Tests index with a few small values; negative, open, empty and repeated selections are not covered.",
     ["thinc/types.py"], [("containers", "thinc/types.py Padded, Ragged, Pairs, ArgsKwargs, SizedGenerator")],
     technique="abstract interpretation with a heap; provenance of the rows, lengths and indices of the result", note="Containers are analysed from source with uninterpreted arrays and indices of eight kinds; row ranges are identified as the starts and ends of sequences in the running sum of the lengths.")

prop("T02", "Array types accept exactly the arrays they name",
     "A value annotated with an array type is accepted if, and only if, it is an array with the number of dimensions and the kind of dtype (float32; signed and unsigned 32 and 64 bit integers) the type is named after, and is returned as the same object. Anything else is refused with an error.",
     ["inputs"], "for every array type, number of dimensions and dtype",
     "Tests validate a handful of arrays for a few of the types.",
     ["thinc/types.py"], [("validators", "thinc/types.py __get_validators__, validate_array")],
     technique="abstract interpretation with a heap; finite case analysis over declared dimensions and dtypes", note="Arrays are symbols with a given number of dimensions (1 to 4) and dtype (eight).")


prop("B01", "Every backend can be called the way every other backend can",
     "Any call that works with one backend's operation binds in every other backend: overriding operations take the same parameters in the same positions with the same defaults, return a value whenever the base operation does, and where a backend falls back on the generic implementation for some input it hands over every argument unchanged and returns the result. Every call of a backend operation in the library binds in all backends.",
     ["inputs", "configurations", "programs"], "for every operation, every backend class (including those for hardware that is absent) and every call site",
     "The Cupy, MPS and Apple backends cannot run in the test environment, and fall-back paths for unusual dtypes and layouts are rarely reached.",
     ["thinc/backends", "thinc/layers"], [("overrides of Ops methods", "thinc/backends/numpy_ops.pyx, thinc/backends/cupy_ops.py, thinc/backends/mps_ops.py")],
     technique="class-hierarchy analysis: signature conformance of overrides, return-path analysis, binding of resolved call sites", note="A receiver named ops/_ops or obtained from get_current_ops/get_ops counts as a backend; other aliases are not followed.")

EL = "Operations are analysed as if applied to one element of real numbers, with reductions kept as symbols; kernels of C++ and CUDA are read through clang's syntax tree. Formulas are compared on partitions of their pieces; rounding, overflow of intermediate values and memory layout are not considered. Operations whose source uses constructs outside this fragment are skipped and counted."

prop("B02", "Operations write their arguments only when asked to work in place",
     "Called without inplace, an elementwise operation of any backend leaves every argument unchanged and returns a new array. Called with inplace it returns the array it was given, writes no other argument, and computes the same result.",
     ["inputs", "configurations"], "for every elementwise operation with its backward pass, every backend and dtype path, and any values",
     "Tests rarely look at the arguments after the call and never at the backends for hardware that is absent.",
     ["thinc/backends"], [("elementwise operations", "thinc/backends/ops.py, numpy_ops.pyx, cupy_ops.py, _custom_kernels.py, cpu_kernels.cc")],
     technique="value-flow analysis over buffers: write effects and aliasing per path, through native and CUDA kernels", note=EL)

prop("B03", "The backward pass of every activation is its exact derivative",
     "For every activation and elementwise operation, in every backend, the array the backward operation gives is the incoming gradient times the derivative of what the forward operation computes, for every input away from the kinks and for every setting (slope, bounds, threshold, temperature). The backward pass of layer normalization is the gradient of the normalization with its mean and variance.",
     ["inputs", "configurations"], "for every real input, every setting and every backend",
     "Finite difference tests sample some values with default settings on one backend.",
     ["thinc/backends"], [("forward and backward operations", "thinc/backends/ops.py, numpy_ops.pyx, cupy_ops.py, cpu_kernels.cc, _custom_kernels.cu"), ("layer normalization", "thinc/layers/layernorm.py")],
     technique="value-flow analysis to piecewise formulas; symbolic differentiation; comparison piece by piece", note=EL)

prop("B04", "All backends compute the same, documented function",
     "For every element the native, CUDA and generic implementation of an operation give the same result with the same settings; activations compute their documented definition. The update operations of the optimizer change weights, moments and averages by the documented amounts.",
     ["inputs", "configurations"], "for every real input, every setting and every backend, also those for hardware that is absent",
     "The CUDA kernels cannot be run in the test environment; the native paths are compared on a few values with default settings.",
     ["thinc/backends"], [("elementwise operations", "thinc/backends/ops.py, numpy_ops.pyx, cupy_ops.py, cpu_kernels.cc, _custom_kernels.cu"), ("optimizer operations", "thinc/backends adam, update_averages")],
     technique="value-flow analysis to piecewise formulas in every implementation; comparison piece by piece with the definition and each other", note=EL)

CE = "Every array is a table of cells; the analysis carries for each cell the expression of input cells it holds, or that it was never written, along one path per class of shapes (lengths, windows, pieces, empty and single rows; more of them in the thorough tier) and per ordering of the values. Sizes outside those classes are not analysed. Rounding is not considered; NumPy, CuPy, BLAS and hash64 are taken by their documented meaning. Cases whose source uses constructs outside the fragment are skipped and counted."

prop("B05", "Memory layout and element type of the arguments never change a result",
     "Given its array arguments in column order, as strided or reversed views, in the other float or integer precision or in a type without native support, an operation of NumpyOps or CupyOps returns the same values and makes the same updates of its arguments as for plain contiguous arrays, or raises; no native code walks memory of another layout or element type than it assumes. This holds for the structural operations (seq2col, reduce_*, maxout, gemm, affine, pad, flatten, gather_add, scatter_add, softmax), the elementwise ones, adam and position_encode.",
     ["inputs"], "for every layout and type of each argument, all values, and both backends, also the one whose hardware is absent",
     "Tests pass freshly allocated contiguous float32 arrays; a view read as raw memory gives plausible numbers, and the CUDA backend cannot be run.",
     ["thinc/backends/numpy_ops.pyx", "thinc/backends/cupy_ops.py", "thinc/backends/_custom_kernels.py", "thinc/backends/ops.py"], [("wrappers of native kernels", "thinc/backends/numpy_ops.pyx, _custom_kernels.py"), ("kernels", "thinc/backends/cpu_kernels.hh, _custom_kernels.cu")],
     technique="abstract interpretation of Python, Cython, C++ and CUDA sources over array cells with typed, strided memory; comparison of the reached states per argument", note=CE)

prop("B06", "Native operations stay within their arrays and reject what does not fit",
     "Whatever lengths, positions (which), indices, window sizes, pieces and shapes NumpyOps or CupyOps operations are given, native code never reads or writes outside an array, never uses memory it has not written, and leaves no cell of the result unwritten; arguments that do not describe the data (lengths that exceed or do not cover the rows where they must, negative lengths, positions or indices out of range, shapes that do not match) raise instead of giving a result. Empty arrays and batches are handled.",
     ["inputs"], "for every combination of shapes, lengths, positions and indices, valid or not",
     "An access outside an array usually returns some number and passes a test; tests use valid arguments, and the CUDA kernels cannot be run.",
     ["thinc/backends/numpy_ops.pyx", "thinc/backends/cpu_kernels.hh", "thinc/backends/_custom_kernels.cu", "thinc/backends/_custom_kernels.py"], [("argument checks", "thinc/backends/numpy_ops.pyx, ops.py, _custom_kernels.py"), ("kernels", "thinc/backends/cpu_kernels.hh, _custom_kernels.cu")],
     technique="abstract interpretation over array cells: bounds, initialisation and exception effects of every access, on classes of invalid arguments", note=CE)

prop("B07", "CUDA kernels get what they declare and do not depend on the launch grid",
     "Every kernel _custom_kernels.py names is compiled from the CUDA source for the element type it is used with; at each launch the arguments match the declared parameters in number, order and type; the result is the same for every number of blocks and threads, every output cell is produced exactly once, and no two threads touch one cell.",
     ["inputs", "schedules"], "for every kernel, element type, grid size and interleaving of threads",
     "The CUDA code cannot be run in the test environment at all, and races show only under some schedules.",
     ["thinc/backends/_custom_kernels.py", "thinc/backends/_custom_kernels.cu", "thinc/backends/cupy_ops.py"], [("launches", "thinc/backends/_custom_kernels.py"), ("kernels", "thinc/backends/_custom_kernels.cu")],
     technique="abstract interpretation of the kernels thread by thread over array cells, with read and write sets per thread", note=CE)

prop("B08", "Structural operations put every value where their documentation says",
     "In every backend: seq2col gathers the window around each row within its sequence; reduce_sum, mean, max, first and last pool exactly the rows of each sequence, with the first maximal position as which; maxout takes the first maximal piece; gemm and affine are the documented products; flatten/unflatten, pad/unpad and list2padded/padded2list place and recover every row, with lengths, indices and size_at_t as documented; gather_add and scatter_add add the named rows; get_dropout_mask zeroes or scales by 1/(1-drop); ngrams hashes each window of keys; adam updates every weight by its formula. Each backprop_ operation is the transpose of its forward map.",
     ["inputs"], "for every assignment of sequence lengths, widths, windows, positions and values",
     "Tests compare a few small batches; boundaries between sequences, empty sequences, ties and blocks beyond the first are rarely among them, and the CUDA backend cannot be run.",
     ["thinc/backends"], [("operations", "thinc/backends/ops.py, numpy_ops.pyx, cupy_ops.py"), ("kernels", "thinc/backends/cpu_kernels.hh, _custom_kernels.cu, _custom_kernels.py")],
     technique="abstract interpretation over array cells: provenance of every result cell compared with the documented definition; transposition of the map for the backward pass", note=CE)

prop("B09", "alloc, reshape and asarray give the shape, type and contents they name",
     "In every backend alloc and its variants return a new array of the given shape and element type (by default float32 for f, int32 for i), zeroed unless zeros is false; reshape and its variants keep the elements in order; asarray and its variants return an array on the device of the backend with the contents of the argument and the given or default element type; as_contig returns contiguous memory with the same contents; to_numpy returns the same contents on the host.",
     ["inputs"], "for every variant, shape, element type and source of the data",
     "There are over thirty near-identical methods per backend, of which tests call a handful with default arguments.",
     ["thinc/backends/ops.py", "thinc/backends/numpy_ops.pyx", "thinc/backends/cupy_ops.py"], [("helpers", "thinc/backends/ops.py Ops.alloc*, reshape*, asarray*")],
     technique="abstract interpretation over array cells of every method of the family, found by name", note=CE)

prop("B10", "Batching yields every item exactly once, aligned and in the sizes asked for",
     "minibatch and multibatch, for lists, tuples, arrays, Ragged and Pairs, yield each item exactly once per iteration, in order unless shuffle is set, in batches of the size given (a number, or the next value of a generator, rounded down), the last one shorter if need be; the length of the result is the number of batches it yields, it can be iterated repeatedly, buffer does not change what is yielded, the parts of a multibatch hold the same items of each sequence, and the sequences themselves are not changed.",
     ["inputs", "configurations"], "for every sequence type and length, every size or series of sizes, shuffled or not, and every buffer",
     "A test looks at a few even splits; losing or repeating an item at the end of an epoch raises nothing and only trains a slightly worse model.",
     ["thinc/backends/ops.py", "thinc/types.py"], [("batches", "thinc/backends/ops.py Ops.minibatch, multibatch, _get_batch, _get_batch_sizes"), ("result", "thinc/types.py SizedGenerator")],
     technique="abstract interpretation over array cells with items as symbols: provenance of every yielded item", note=CE)

prop("B11", "SparseLinear sums the hashed weights and its gradient is the transposed map",
     "For every key SparseLinear adds, to the score of each output of the example that holds it, the two weights selected by the 32-bit murmur hashes of the key with seeds 0 and 1 (v2: class by length plus hash modulo length; v1: the compatible indexing), times the value, plus the bias; its backward pass accumulates exactly the transposed map into the gradients of W and b; keys, values and lengths of any layout and type are read correctly or rejected, and lengths or gradients that do not fit raise.",
     ["inputs"], "for all keys, values, lengths, numbers of outputs and table sizes",
     "The layer works on raw pointers; tests use tiny fixed inputs, and a wrong weight or an access outside the arrays yields a plausible score.",
     ["thinc/layers/sparselinear.pyx"], [("forward and backward", "thinc/layers/sparselinear.pyx set_scoresC, set_gradientC")],
     technique="abstract interpretation of the Cython source over array cells; comparison with the definition and its transpose", note=CE)

NN = ("Layers are interpreted from source on concrete structures (batches, lengths, containers of a few sizes, empty ones among them) over symbolic cells, along one path per ordering of the values, and compared with a definition written independently from the documentation. "
      "Sizes and nestings outside the listed scenarios are not analysed; rounding is not considered; array-library functions are taken by their documented meaning. The hash is replaced by another function of id and seed (B08 decides it), erf is kept as a symbol (B04). LSTM, SparseLinear and wrapped framework models are left out.")

prop("N01", "Each layer computes its documented function, whatever the container and backend",
     "Run on arrays, lists, Ragged, Padded or tuples, in training and in prediction, with either backend, with the default and with other settings, a layer returns exactly what its documentation defines: affine maps and activations, maxout, layer normalisation, softmax, dropout, pooling, windows, attention, embeddings, similarity, and the combinators and container adapters in terms of their sub-layers; sequences are handled separately, in their order and including empty ones.",
     ["inputs", "configurations", "programs"], "for every layer, setting, input container, all values of input and parameters, both modes and both backends",
     "Tests compare a few outputs at one shape and one setting; a layer that is wrong for an empty sequence, another setting or a nested combination passes.",
     ["thinc/layers"], [("forward functions", "thinc/layers/*.py"), ("the operations they are made of", "thinc/backends/ops.py, numpy_ops.pyx, cpu_kernels.hh, cupy_ops.py, _custom_kernels.cu")],
     technique="abstract interpretation over array cells: value flow from input and parameter cells to output cells, compared with the definition", note=NN)

prop("N02", "The gradients of a layer are the derivatives of what it computed",
     "For every layer, option, container and mode, the gradient returned for each cell of the input and the gradient accumulated for each cell of every parameter are the derivative of the output that was returned, contracted with the gradient that was given (for softmax layers, of the logits). Calling the callback again gives the same and accumulates the same again.",
     ["inputs", "configurations", "programs"], "for every layer, setting, container, all values of input, parameters and incoming gradient, both modes and both backends",
     "A derivative that is wrong in one cell or for one setting still trains; numeric gradient checks in the tests cover only a handful of layers.",
     ["thinc/layers"], [("backward callbacks", "thinc/layers/*.py"), ("backprop operations", "thinc/backends/ops.py, numpy_ops.pyx, cpu_kernels.hh, cupy_ops.py, _custom_kernels.cu")],
     technique="abstract interpretation over array cells of forward pass and callback; comparison with the derivative of the output cells", note=NN)

prop("N03", "Initialisation makes a usable model of the right sizes from whatever is known",
     "Whether dimensions are given to the constructor or left to be inferred from sample input or output, in any of the accepted containers and at any depth of composition, initialize gives every node the width of its own input and output, sets every parameter, and leaves a model that computes its definition with outputs shaped like the sample output; it leaves the sample data alone, and a second call with the same data changes no dimension and no set of parameters. Resizing a resizable layer keeps the parameters of the outputs it had, fills those of new outputs with the given or default value, and leaves dimensions that agree.",
     ["inputs", "configurations", "programs"], "for every layer, every combination of known and inferred dimensions, every container and composition, both backends",
     "Tests initialise most layers with all dimensions given; wrong inference needs input and output of different width, or a certain nesting, to show.",
     ["thinc/layers", "thinc/model.py", "thinc/util.py"], [("init callbacks", "thinc/layers/*.py"), ("dimensions and parameters", "thinc/model.py"), ("widths", "thinc/util.py get_width")],
     technique="abstract interpretation over array cells of constructor, initialize and forward pass", note=NN)

prop("N04", "Parameters start from the documented distributions",
     "Every initializer, called directly or configured through the registry, fills an array of the shape asked for, in 32-bit floats on the device of the operations, with one independent draw per cell from the documented distribution with the documented scale for that shape. Every layer initialises each parameter with the initializer given for it, or with the documented default: biases and softmax weights zero, gains and similarity weights one, tables and attention vectors uniform between -0.1 and 0.1.",
     ["inputs", "configurations"], "for every initializer, setting, shape and backend, and every parameter of every layer",
     "Tests check only that an initializer can be called; a wrong fan or variance trains, only worse.",
     ["thinc/initializers.py", "thinc/layers"], [("initializers", "thinc/initializers.py"), ("init callbacks", "thinc/layers/*.py")],
     technique="abstract interpretation over array cells with random draws as symbols tied to their distribution", note="Shapes of two to three dimensions of a few sizes. The documentation of LSTM does not state an initialisation; it is left out. numpy.random is taken by its documented meaning.")

prop("E02", "Losses compute the documented gradient and value in every cell",
     "For guesses and truths of every accepted kind (labels as array or list, names with missing, negated and smoothed ones, probabilities), the crossentropy losses give in each cell that counts the difference of guess and target and elsewhere zero, and as value the sum of its squares; L2Distance the difference and its square; CosineDistance one minus the cosine summed over the rows, and its derivative; rows with a zero target are left out if asked. Normalization divides gradient and differences by the number of examples (sequences for the sequence loss), whatever their sizes and missing values, and is on by default. to_categorical gives the smoothed class matrix for labels of any rank. The registered versions behave as the class with the same settings, on both backends.",
     ["inputs", "configurations"], "for every loss, kind of truths, combination of settings, all values and both backends",
     "Tests compare values for a few arrays and settings; the combinations of negated, missing and smoothed labels and cells that must be zero are not covered.",
     ["thinc/loss.py", "thinc/util.py"], [("losses", "thinc/loss.py"), ("targets", "thinc/util.py to_categorical")],
     technique="abstract interpretation over array cells: value flow from guesses and truths to gradient and loss, compared with the definition and its derivative",
     note="Labels are concrete (one, four and twenty of three classes), guesses and probabilities are symbolic within the allowed interval. Rounding is not considered; array-library functions are taken by their documented meaning. The definitions of the crossentropy and of L2Distance are those of the documented training objective of this library (gradient guess - target; the value is the sum of squares).")

prop("O04", "Updates and training steps follow the documented algorithms, update after update",
     "For every history of updates of one or several parameters, with the default and with other settings, constant or scheduled: each update of Adam, SGD, RAdam and Optimizer moves every cell of the weights as the documented algorithm does (L2 as penalty or weight decay, clipping by norm, both moments with bias correction for the number of updates of that parameter, the variance rectification of RAdam, the scaled learning rate), zeroes the gradient, and moves the running average of the parameter. A training step (begin_update, backprop, finish_update) updates each parameter of a model exactly once by the sum of its gradients, however often and at whatever depth it is used; use_params with the averages shows the averages and restores the parameters.",
     ["inputs", "histories", "configurations", "programs"], "for every optimizer, combination of settings, history of updates, all values of weights and gradients and both backends",
     "Tests check single updates and that training converges; a correction that is off by one update, or an update applied twice to a shared parameter, still converges.",
     ["thinc/optimizers.py", "thinc/model.py", "thinc/backends"], [("updates", "thinc/optimizers.py Optimizer.__call__, _adam, _radam"), ("kernels", "thinc/backends ops adam, clip_gradient, update_averages"), ("steps", "thinc/model.py finish_update, use_params")],
     technique="abstract interpretation over array cells along histories of updates, compared with the documented recurrences",
     note="Histories of up to eight updates of parameters of up to four cells; clipping is followed for gradients above and below the threshold. Rounding is not considered; array-library functions are taken by their documented meaning. Wrapped framework models are left out.")

prop("X01", "Results stay within rounding of the exact ones for all finite inputs",
     "For all finite 32-bit inputs, including very large and very small ones, operations, losses and optimizers give finite results within a small relative error of the exact real-number definition.",
     ["inputs"], "for all finite inputs of every operation, on every backend",
     "Tests use inputs of moderate size; overflow and cancellation need extremes.",
     ["thinc/backends"], [("operations", "thinc/backends/ops.py, numpy_ops.pyx, cpu_kernels.hh")],
     na="Bounding accumulated rounding needs a range of the inputs and the order in which BLAS and NumPy sum, and neither is in this source; with unbounded inputs an interval or relative-error analysis of exp, sums and products gives only 'may overflow' everywhere. The checks state that they take arithmetic as exact.")

prop("X02", "The same seed gives the same trained model",
     "After fix_random_seed, building, initialising and training the same model on the same data gives bit-for-bit the same parameters, on a given machine, in each run.",
     ["histories"], "for every model and run",
     "Tests train once; nondeterministic summation shows up only between runs.",
     ["thinc/util.py", "thinc/backends"], [("seeding", "thinc/util.py fix_random_seed")],
     na="Depends on the order of atomic additions on the device, on the threading of the BLAS in use and on the frameworks, none of which is in this source; atomicAdd in _custom_kernels.cu already leaves it open on the GPU.")

prop("W01", "Wrapped PyTorch models exchange data, gradients, updates and state faithfully",
     "Whatever the container of the inputs and the number of outputs, a wrapped PyTorch model is called once per call, in the right mode, with each input in its place; its outputs come back in the same structure; the callback starts autograd from all outputs with their gradients, aligned, and returns the gradient of each input in its place (RNN wrappers keep the metadata of the padded batch). finish_update calls the optimizer once per parameter that has a gradient, with key (id, name), stores what it returns and clears the gradient; with mixed precision gradients are scaled and unscaled exactly once, and an overflow on any device skips the update. Within use_params the given values apply, for the body only, and serialization restores every parameter and buffer.",
     ["programs", "inputs", "histories", "fault_sequences"], "for every wrapped module, container of inputs, number of outputs, mode, overflow pattern and history of updates",
     "Tests wrap one linear layer with one input and one output on one CPU; mixed precision, overflow and several devices never run in them.",
     ["thinc/shims/pytorch.py", "thinc/shims/pytorch_grad_scaler.py", "thinc/layers/pytorchwrapper.py", "thinc/util.py"],
     [("shim", "thinc/shims/pytorch.py PyTorchShim"), ("gradient scaler", "thinc/shims/pytorch_grad_scaler.py"), ("wrapper and converters", "thinc/layers/pytorchwrapper.py"), ("recursive conversion", "thinc/util.py convert_recursive, iterate_recursive")],
     technique="abstract interpretation of wrapper, converters, shim and gradient scaler against objects that stand for tensors, module and autograd; value flow and effect counting",
     note="Tensors, module and autograd have the meaning documented by the framework; what they compute is not analysed (X03). The containers, numbers of outputs, devices and histories listed in the evidence are analysed, others are not.")

prop("X03", "Wrapped framework models train as they would in their framework",
     "A PyTorch, TensorFlow or MXNet model wrapped by a shim gives, for forward pass, gradient of inputs and parameters, optimizer step and serialization, what the same model gives when used in its framework directly.",
     ["programs", "histories"], "for every wrapped model, input and history of updates",
     "Tests wrap one or two linear layers.",
     ["thinc/shims", "thinc/layers/pytorchwrapper.py", "thinc/layers/tensorflowwrapper.py", "thinc/layers/mxnetwrapper.py"], [("shims", "thinc/shims/*.py")],
     na="Autograd, optimizer state and (de)serialization are native code of the frameworks, outside this source; a model of them would be an assumption, not an analysis. The Python side of the shims is covered where it can be decided: data, gradients, updates and state of PyTorch models (W01), scopes (M04), ids (M06), shared state (M07), order of calls and callbacks (G03, G04, G07), conversion (B09).")
