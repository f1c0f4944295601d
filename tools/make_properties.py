"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))
ELM, HP, SL, SP = "hpelm/elm.py", "hpelm/hp_elm.py", "hpelm/nnets/slfn.py", "hpelm/nnets/slfn_python.py"
V, CV, LOO = "hpelm/mss_v.py", "hpelm/mss_cv.py", "hpelm/mss_loo.py"
H5, M1, M2, RB, CU = "hpelm/modules/hdf5_tools.py", "hpelm/modules/mrsr.py", "hpelm/modules/mrsr2.py", "hpelm/modules/rbf_param.py", "hpelm/nnets/slfn_skcuda.py"

p("C01", "Hidden layer and predictions follow the neuron formulas, row by row",
  "For every finite input row, each hidden neuron's value is its formula applied to that row and that neuron's own weights w and bias b: linear x.w+b, sigmoid 1/(1+exp(x.w+b)), tanh(x.w+b), RBF exp(-d^2/b) with d the L1, L2 or Linf distance between x and w, or the custom element-wise function of x.w+b. Columns are grouped by neuron type in order of first addition, and by order of addition inside a type; a prediction is the hidden row times the output weights. No row's result depends on other rows, on the batch size, or on whether the data came as an array or a file.",
  ["inputs", "configurations"], "all mixes of neuron types and numbers of neurons, all data values, shapes, dtypes and memory layouts, both model classes, all batch sizes",
  "Tests check one tanh neuron on three values and that projection runs; no test compares other neuron types, mixes, ranges or layouts with their formula.",
  [SL, SP, ELM, HP], [("transformation functions", SL + ":SLFN.__init__"), ("column stacking", SL + ":SLFN._project"), ("batched projection", HP + ":HPELM.project/predict")],
  [("neurons", "list of (number, type, W, bias)", SL), ("B", "output weights", SL)], ["ELM.project", "HPELM.project", "ELM.predict", "HPELM.predict"])

p("C02", "Training returns the regularised least-squares solution",
  "After plain training, the output weights B minimise |HB-T|^2 + norm*|B|^2 for the model's own hidden representation H of exactly the training data and the targets T, with norm the model's regularisation applied once. This holds for both solvers and both precisions up to the rounding of that precision, and also for rank-deficient problems (duplicate neurons, more neurons than samples, zero or constant data), where the solution stays finite.",
  ["inputs", "configurations"], "all data, neuron sets, norms, batch sizes, numbers of outputs, solvers, precisions",
  "Tests only compare test errors on benchmark data with loose thresholds, or check that training runs; wrong regularisation or a slightly wrong system passes them.",
  [ELM, HP, SL, SP], [("normal equations accumulated by batches", SL + ":add_batch"), ("Cholesky with least-squares fallback", SP + ":solve_corr"), ("pseudo-inverse", SL + ":solve_corr")],
  [("HH, HT", "accumulated H'H + norm*I and H'T", SL)], ["ELM.train", "HPELM.train", "nnet.get_B"])

p("C03", "Training does not depend on how the data is cut up or ordered",
  "The trained model depends only on the multiset of training samples: any batch size, any division of the samples into successive add-data calls with or without intermediate solves, and any order of samples give the same solution up to rounding. Each sample is counted exactly once, including those of incomplete last batches.",
  ["inputs", "histories", "configurations"], "all batch sizes 1..N+1, all ways to split and permute the data over calls, both model classes",
  "Tests use one batch size per dataset, nearly always larger than the data; a skipped or doubled sample at a batch boundary changes a benchmark error too little to notice.",
  [ELM, HP, SL, SP], [("batch loop", ELM + ":add_data"), ("batch loop over file rows", HP + ":add_data"), ("in-place accumulation", SP + ":add_batch")],
  [("HH, HT", "accumulators", SL)], ["nnet.get_corr", "predict"])

p("C04", "Out-of-memory results equal in-memory results, for any range of rows",
  "Training, predicting, projecting and computing errors from HDF5 files gives what the in-memory model gives on the same rows as arrays. A range (istart, icount) selects exactly rows istart .. min(istart+icount, N)-1 in every operation, the results are written to rows 0.. of the output, and the three output forms (file, given array, returned array) have the same content and touch nothing else.",
  ["inputs", "configurations"], "all data sizes, ranges, batch sizes, file dtypes and layouts, output forms, neuron sets",
  "Tests call predict/project on whole tiny files and only check that they run; ranges are only checked to change the solution.",
  [HP, H5, ELM], [("range adjustment", HP + ":add_data/predict/project/_error"), ("array lookup in file", ELM + ":_checkdata")],
  [], ["HPELM.train/predict/project/error", "output HDF5 files"])

p("C05", "Asynchronous I/O gives the synchronous results and always finishes",
  "Training, adding data and predicting with asynchronous I/O give the same model, matrices and output file as the synchronous versions for the same data and range, whatever the relative speed of the reader, the computation and the writer. Every batch is read once and every output row is written once, before the call returns; the helper processes end, and unsuitable (non-file) data is refused instead of blocking.",
  ["schedules", "inputs", "configurations"], "all timings of the reader, writer and main processes; all data sizes, ranges, batch sizes",
  "Tests run each async method once on four rows in one batch and check nothing about the result; timing is whatever the machine gives.",
  [HP, H5], [("prefetch protocol with request/response queues", HP + ":add_data_async/predict_async"), ("reader and writer processes", H5 + ":_ireader/_iwriter")],
  [("queues of (start, stop) requests and data batches", "in-flight batches", HP)], ["output HDF5 file", "nnet.get_corr", "child processes"])

p("C06", "Parallel training into shared files loses and duplicates nothing",
  "When any number of processes add different parts of the data into the same pair of HH/HT files, in any interleaving and whether or not the files exist yet, every process succeeds and the files end up holding norm*I plus the sum over all parts for HH, and the sum for HT, each part counted once. Solving from these files gives the same model as training on all the data at once, and solving or validating never changes the files.",
  ["schedules", "histories", "inputs"], "all interleavings of 2..4 processes at their file and lock operations, with all orders of creation, check, write and finish",
  "One test runs two workers one after the other; no test has two processes at work at the same time, so neither the locks nor the creation race is ever exercised.",
  [H5, HP], [("inter-process locks around read-modify-write", H5 + ":_write_fHH"), ("creation of missing files", H5 + ":_prepare_fHH"), ("norm subtracted from each contribution", HP + ":add_data")],
  [("HH, HT files", "sum of contributions on disk", H5)], ["file contents after all processes exit", "exit status of processes"])

p("C07", "A killed parallel worker harms neither the files nor other workers",
  "If a worker process is killed at any moment before it begins to update the shared HH/HT files, its part counts as not added: the files stay readable and hold exactly the other parts, other workers are not blocked by it, and repeating its part gives the full result. If it is killed after its update is complete, its part is fully counted.",
  ["crash_points", "schedules", "fault_sequences"], "all kill points outside the write window, combined with interleavings of the other workers",
  "No test kills a process; the documented use (interrupt a long training and resume it) has no test at all.",
  [H5, HP], [("contribution computed in memory, published last", HP + ":add_data"), ("OS locks released at process death", H5 + ":_write_fHH")],
  [("HH, HT files", "sum of contributions on disk", H5)], ["file contents after the kill and after the rerun"])

p("C08", "A saved model is the same model after loading",
  "Saving to a file or to bytes and loading into any new model object (of either class, with any constructor sizes, any earlier content and either CPU solver) restores inputs, outputs, neurons, output weights, classification type, class weights and norm. The loaded model predicts, projects, computes errors and confusion matrices, and trains further exactly as the original does (up to the rounding of a changed precision); the target object's own precision, batch size and solver are kept, and the saved model itself is not changed.",
  ["inputs", "histories", "configurations"], "all models (untrained, trained, pruned, multi-type, with custom functions) and all receiving objects",
  "One test saves one small model and compares a few attributes; reuse of a non-empty target, other solvers, bytes and further training are not covered.",
  [ELM, SL], [("model dictionary", ELM + ":_get_output_format/_update_from_output"), ("pickle", ELM + ":save/load/dumps/loads")],
  [("model dictionary", "inputs, outputs, classification, weights, neurons, norm, Beta", ELM)], ["predict, project, error, confusion, train after load"])

p("C09", "Weighted classification is weighted least squares with the right weights",
  "Training for weighted classification gives the solution of the least-squares problem where each sample's squared error is multiplied by the weight of its class, with the norm not weighted; giving a class an integer weight is the same as repeating its samples that many times. Weights come from the training call, else from the constructor, else are N/n_c for a class with n_c of the N training samples used (all classes present). It does not depend on batching, storage or solver, and holds for the final network of model structure selection too.",
  ["inputs", "configurations"], "all one-hot targets, positive weights, class orders and imbalances, batch sizes, ranges, model classes and solvers, V/CV/LOO or none",
  "Tests check that weighted training runs, and on one six-sample problem which class wins.",
  [ELM, HP, SL, SP, V, CV, LOO], [("weight lookup per batch", ELM + ":add_data"), ("scaling by square roots", SP + ":add_batch"), ("automatic weights", HP + ":add_data")],
  [("wc", "class weights", ELM)], ["nnet.get_B", "predict", "wc attribute"])

p("C10", "Error values are the documented metric, for every data size and storage",
  "The reported error equals the definition on the given rows: mean squared error for regression, fraction of rows with a wrong arg-max for classification, fraction of wrong labels at threshold 0.5 for multi-label, and for weighted classification the class-weighted average of per-class error rates (a class without samples has zero error). The value does not depend on batch size, array or file storage, dtype or model class, and a row range restricts it to exactly those rows.",
  ["inputs", "configurations"], "all targets and outputs, sizes, ranges, batch sizes, storages, modes, both model classes",
  "Tests evaluate each metric on one three-row example in a single batch; multi-batch and ranged errors are only compared with 1.",
  [ELM, HP], [("in-memory metrics", ELM + ":_error"), ("batched metrics", HP + ":_error")],
  [("classification, wc", "which metric", ELM)], ["ELM.error", "HPELM.error"])

p("C11", "Confusion matrices count every sample once, in the right cell",
  "For (weighted) classification, cell (i,j) of the confusion matrix is the number of rows whose true arg-max is i and predicted arg-max is j, so the cells sum to the number of rows and row sums are the class counts; for multi-label it is the number of rows where label i is true and label j is predicted (both above 0.5). The matrix does not depend on batch size, model class or storage.",
  ["inputs", "configurations"], "all targets and outputs, numbers of classes and rows, batch sizes, storages",
  "Two four-row examples in one batch, and tests that the sum is positive on benchmark data.",
  [ELM], [("batched counting", ELM + ":confusion")], [], ["ELM.confusion", "HPELM.confusion"])

p("C12", "Model structure selection leaves a correctly retrained sub-network",
  "After training with V, CV or LOO selection, with or without optimal pruning, the kept neurons are a non-empty subset of the original ones with unchanged parameters, each used at most once, at most kmax of them when kmax is given with pruning. Without pruning the order in which neurons are tried is random, not a fixed one. The resulting model is the one that plain training, in the same classification mode and weights, would give with exactly these neurons on all the training data, so validation data never enters the final weights.",
  ["inputs", "configurations"], "all data, neuron mixes, selection methods, rankings, numbers of outputs, batch sizes, classification modes",
  "Tests check test-set errors against loose thresholds and that more than one neuron is kept; a wrongly pruned or wrongly retrained model usually still passes.",
  [V, CV, LOO, ELM, SL], [("pruning by index", SL + ":_prune"), ("re-training after pruning", V + "," + CV + "," + LOO)],
  [("neurons, L, B", "pruned network", SL)], ["nnet.get_neurons", "nnet.get_B", "predict"])

p("C13", "Selection keeps the size with the best validated error",
  "The number of neurons kept by V or CV selection minimises the validation error (for CV: averaged over the k splits, networks trained on the other k-2 parts) plus a penalty growing linearly with size to 1% of the full network's error, among candidate sizes that always include the smallest (1; 3 for CV), the largest allowed, the quarter points in between and those of ever smaller intervals around the best of them, so for networks with at most five neurons (seven for CV) all sizes. So without kmax its validation error is never more than 1% above the full network's. The error returned by CV is the test-part error averaged over the splits, for networks of the selected size.",
  ["inputs", "configurations"], "all data, neuron sets, numbers of splits, rankings, classification modes, kmax values",
  "Tests only bound the final error on benchmark sets; choosing a clearly non-optimal size or returning another network's error passes them.",
  [V, CV, ELM], [("interval-halving search on penalised errors", V + "," + CV), ("data splits", CV), ("candidate error", ELM + ":_error")],
  [("e", "penalised errors by size", V)], ["number of neurons kept", "returned CV error"])

p("C14", "Optimal pruning ranks neurons by multi-response sparse regression",
  "Both ranking algorithms return distinct valid regressor indices, as many as requested up to what exists, for any regressors and targets including zero, duplicate and single columns. The first index has the largest correlation with all targets together; each next index is the regressor that first becomes as correlated with the residual as the active ones on the way to their least-squares fit. So a shorter request is a prefix of a longer one, scaling all targets changes nothing, reordering regressors reorders the result, and inputs are not modified.",
  ["inputs"], "all regressor and target matrices, numbers of targets and requested ranks",
  "Two tests run the algorithms once inside training on random data and check nothing about the ranking.",
  [M1, M2, ELM], [("forward selection with sign enumeration", M1), ("forward selection with root finding", M2), ("choice of algorithm by number of outputs", ELM + ":_ranking")],
  [], ["mrsr", "mrsr2"])

p("C15", "LOO selection uses the exact leave-one-out error",
  "For regression, the number of neurons kept by LOO selection minimises the true leave-one-out mean squared error, as obtained by retraining N times without one sample each time with the same regularisation; for classification, the mean square of misclassifications divided by one minus the sample's leverage (for 'wc': averaged per class and weighted). To that comes a penalty growing linearly with size to 1% of the full network's error, among candidate sizes that include one neuron, the largest allowed, the quarter points in between and those of ever smaller intervals around the best of them, so all sizes for networks of at most five neurons.",
  ["inputs", "configurations"], "all data, classification modes, neuron sets, norms, rankings, kmax values",
  "Tests check that training with LOO runs and keeps more than one neuron in one of ten tries; nothing compares with actual leave-one-out.",
  [LOO, ELM], [("PRESS formula", LOO), ("interval-halving search", LOO)], [], ["number of neurons kept"])

p("C16", "Validation with correlation files reports and installs the best sub-network",
  "For each tested number of neurons n, the reported error and confusion matrix are those of the network of the first n neurons solved from the leading part of the HH/HT files, evaluated on the whole validation set independent of batch size; the tested numbers are exactly the given vector, or a log-spaced set from 3 to the number of neurons. The model is left with the n of the smallest error, its neurons and its solution, and the files are not changed.",
  ["inputs", "configurations"], "all data, neuron mixes, steps, batch sizes, classification modes",
  "Two tests compare the first and last error or check that a confusion matrix is not empty.",
  [HP, SL], [("single pass over validation batches", HP + ":validation_corr"), ("pruning to the leading neurons", SL + ":_prune")],
  [], ["returned (Ls, errs, confs)", "model after the call"])

p("C17", "HDF5 conversion preserves every value, row and column",
  "Making an HDF5 file from an array, a .npy file, or a text file (.txt, .csv, compressed .gz or .bz2; any delimiter, any number of header rows skipped, one row or one column included) stores exactly the source values in the source shape, converted to the requested dtype, for every compression level; a shape creates zeros of that shape, and one-dimensional arrays become one column. The file holds one two-dimensional array that all model operations can read, and the source is not modified.",
  ["inputs", "configurations"], "all shapes, values, dtypes, sources, delimiters, skipped rows, compression levels",
  "Tests only make files from small float arrays as a setup step; text loading is not tested at all (and was broken).",
  [H5], [("loaders and array creation", H5 + ":make_hdf5")], [], ["content of the HDF5 file"])

p("C18", "HDF5 normalisation makes columns zero-mean, unit-variance and repeatable",
  "Normalising a file made by the toolbox without parameters returns the column means and standard deviations of its data (1 for constant columns) and leaves (x-mean)/std in the file; with given parameters it applies exactly these and does not modify the given vectors. The result does not depend on the batch size, and a repeated call without parameters changes nothing and returns the stored parameters.",
  ["inputs", "histories", "configurations"], "all data including constant and large-offset columns, batch sizes, call sequences",
  "No test calls it.",
  [H5], [("two-pass batched normalisation", H5 + ":normalize_hdf5"), ("parameters kept as attributes", H5 + ":normalize_hdf5")],
  [("mean, std attributes", "stored parameters", H5)], ["file content", "returned vectors"])

p("C19", "Inputs are never modified and read-only operations change no model",
  "No operation modifies the arrays or the data files passed to it as input (training, validation and test data, weights, neuron parameters). Predicting, projecting, computing errors or confusion matrices, converting to a string, and saving leave the model unchanged, so repeating them gives bit-identical results, and they can be called on read-only arrays.",
  ["inputs", "histories", "configurations"], "all operations, data dtypes and layouts, modes, both model classes and solvers",
  "No test compares its inputs before and after, or repeats an operation.",
  [ELM, HP, SL, SP, V, CV, LOO, M1, M2, H5], [("working copies before scaling by weights", SL + ":add_batch"), ("copies in ranking", M1)],
  [], ["checksums of inputs and of the model before and after each call"])

p("C20", "Unsuitable data is refused with an error and has no effect",
  "Data with a wrong number of features or outputs, different numbers of samples in inputs and targets, more than two dimensions, non-numeric content, or a missing or unreadable file is refused with an exception by every operation that takes it; so are training without neurons, predicting before training, arrays given to operations that read files, and an output array of the wrong size. A refused call leaves the model and any existing output or HH/HT files as they were, and later valid calls behave as if it had not happened.",
  ["inputs", "histories", "fault_sequences"], "all operations, all kinds of unsuitable data, as arrays and files, at all points of a model's life",
  "Tests cover a handful of rejections in train() of a fresh model; they never look at the model after it, nor at other operations.",
  [ELM, HP, H5], [("data checks before any change", ELM + ":_checkdata"), ("file checks", HP + ":_checkcorr"), ("file shape checks", H5 + ":_prepare_fHH")],
  [], ["exception raised", "model and files after the refusal"])

p("C21", "Every training call starts afresh",
  "The model after a training call depends only on the neurons, the arguments of that call and the constructor's settings: earlier training, added data, other modes, weights, failed calls, predictions or solving from files leave no trace. Retraining with the same data gives the same model, and adding data after training continues from exactly that training data.",
  ["histories", "inputs"], "all sequences of operations before the final training call",
  "Tests nearly always train a new model once.",
  [ELM, HP, SL], [("reset before training", ELM + ":_train_parse_args"), ("reset of accumulators", SL + ":reset")],
  [("HH, HT, wc, classification, ranking", "state that must not leak between calls", ELM)], ["nnet.get_B", "predict", "wc and classification attributes"])

p("C22", "All solvers are interchangeable",
  "The basic and the default CPU solver (and the GPU solver, on a device with the documented CUDA library semantics) give the same hidden layer, correlation matrices, solution, predictions, pruning and selection result for the same operations, up to rounding. Correlation matrices read from a model and set back, or read in the middle of training, leave its solution unchanged.",
  ["configurations", "inputs", "histories"], "all sequences of solver operations on all data, both precisions",
  "No test uses the basic or the GPU solver at all.",
  [SL, SP, CU, ELM], [("solver interface", SL), ("upper-triangle accumulation", SP + ":add_batch/get_corr"), ("GPU solver", CU)],
  [("HH", "full or upper-triangular covariance", SP)], ["get_corr, get_B, predict, get_neurons on paired models"])

p("C23", "Neurons are added as given, and changing neurons invalidates the solution",
  "Adding neurons stores exactly the given weights and biases (in the model's precision), merged behind existing neurons of the same type; the total and the string form always agree with the stored neurons. Without given parameters, linear neurons copy the leading input features (never more neurons than inputs, zero bias), other types get random weights and biases with positive RBF widths. A model whose neurons changed after training refuses to predict until it is trained again.",
  ["inputs", "histories", "configurations"], "all sequences of additions of all types and sizes, with or without parameters, before and after training",
  "Tests add one or two types to fresh models with one to three inputs.",
  [ELM, SL], [("parameter generation", ELM + ":add_neurons"), ("merging", SL + ":add_neurons")],
  [("neurons, L, B", "network description", SL)], ["nnet.get_neurons", "str()", "predict"])

p("C24", "The classification mode is the one asked for",
  "The mode (regression, classification, weighted, multi-label) and class weights given in a training call apply to it and to later errors and confusion matrices; without one, those given to the constructor apply, and 'r' asks for regression. Flags work in any letter case and order ('mc' means 'ml'), and conflicting flags, fewer than two outputs for classification, or a wrong number of weights are refused.",
  ["inputs", "histories", "configurations"], "all combinations and orders of flags, letter cases, constructor settings, and sequences of training calls",
  "Tests pass one flag in one case to fresh models; the combination of constructor and call is never checked.",
  [ELM, HP], [("flag parsing", ELM + ":_train_parse_args"), ("constructor settings", ELM + ":__init__")],
  [("classification, wc", "active mode and weights", ELM)], ["classification and wc attributes", "error()", "confusion()"])

p("C25", "Precision is honoured and single precision stays accurate",
  "A model computes and stores its weights, correlation matrices and created output files in the precision it was given (single or double, in any of the documented spellings), for input of any numeric dtype. On well-conditioned problems a single-precision model agrees with the double-precision one within single-precision rounding.",
  ["inputs", "configurations"], "all spellings, input dtypes, model classes, solvers, neuron types, data of moderate condition",
  "Tests compare the stored precision attribute only.",
  [ELM, SL, SP, HP], [("precision parsing", ELM + ":__init__"), ("precision-specific BLAS/LAPACK", SP + ":__init__")],
  [("precision", "numpy dtype used for storage", ELM)], ["dtypes of W, bias, B, HH, HT and output files", "predict"])

p("C26", "RBF parameter helper returns data points and plausible widths",
  "For a data matrix or an HDF5 file with distinct rows, the RBF helper returns k centroids drawn at random from all the rows of the data, in the transposed form that neurons take, and k positive widths within one standard deviation of the mean of the sampled pairwise distances in the chosen metric, so between zero and twice the largest distance. The parameters can be given directly to RBF neurons, and the data is not changed.",
  ["inputs", "configurations"], "all data sizes, dimensions, k, metrics, array or file",
  "No test calls it (and it was broken).",
  [RB], [("sampled distances", RB + ":rbf_param")], [], ["returned (W, B)"])

p("C27", "Models are independent and deterministic",
  "Operations on one model never change another model, whether interleaved in one thread, run in concurrent threads on in-memory data, or in forked processes, even when models share the same data arrays or were loaded from the same saved model. With the same random state, the same sequence of operations gives bit-identical models.",
  ["schedules", "histories"], "all interleavings of operations on several models in one process and over threads",
  "Every test uses one model at a time.",
  [ELM, HP, SL, SP, V, CV, LOO], [("all state kept per object", ELM + "," + SL)],
  [("neurons, HH, HT, B, wc", "per-model state", SL)], ["each model's predictions, against the same operations run alone"])

p("C28", "Operations on files can follow each other in any order",
  "Any sequence of training, adding data, predicting, projecting, error computation, validation, normalisation and conversion that names the same files works as if each ran in a fresh process: outputs are complete and readable as soon as the call returns, can be input to the next call or be overwritten by it, and an overwritten output holds only the new result. No operation holds a file open after it returns or fails.",
  ["histories", "fault_sequences"], "all sequences of file operations over a small set of files and models, with failures in between",
  "Tests use every file once or twice, in one fixed order, with one model.",
  [HP, ELM, H5], [("files closed when an operation ends", ELM + ":closes_hdf5"), ("output flushed and closed", HP + ":predict/project")],
  [("opened_hdf5", "files opened by a model", ELM)], ["open HDF5 handles after each call", "file contents"])

p("C29", "Memory is bounded by batches, not by the number of rows or calls",
  "Operations on data larger than memory work with a bounded number of batches: the peak memory of training, adding data, predicting and projecting (to files or given arrays), error, confusion matrix, validation with correlation files, normalisation with a batch size and text conversion, plain or asynchronous (helper processes included), does not grow with the number of rows. In-memory training keeps the hidden layer of one batch only, and repeated calls keep no memory.",
  ["inputs", "histories", "schedules"], "all data sizes, batch sizes, operations, speeds of helpers, numbers of calls",
  "Tests use a few rows; they pass if everything is read into memory.",
  [HP, ELM, H5], [("batch loops", HP + ":add_data/predict/project/_error"), ("bounded queues", HP + ":add_data_async/predict_async"), ("hidden layer per batch", ELM + ":add_data")],
  [("arrays alive in an operation", "one or two batches", HP)], ["peak and retained memory of the process and its helpers"])

p("C30", "Progress reports tell the truth and change nothing",
  "Long operations report their progress after a batch when the reporting interval has passed since the last report: the number of batches processed so far (increasing, never above the total, where the total is the number of batches of the selected range), and a remaining time that is never negative and in proportion to the time used. With any interval, results are the same as without reports.",
  ["inputs", "schedules", "configurations"], "all data sizes, batch sizes, ranges, intervals, durations of batches",
  "Tests run too short to ever print a report.",
  [HP], [("report block of the batch loops", HP + ":add_data/predict/project/validation_corr/add_data_async/predict_async")],
  [("batch counter and time of the last report", "local to the call", HP)], ["standard output", "results of the operation"])

p("C31", "A failure in the middle of a file operation ends it with an error",
  "An I/O error, a helper process that fails or dies at a file access or cannot be started, a failing computation or an interrupt ends any file operation, plain or asynchronous, with an error (or the operation still completes with the full result), never with a hang or a silently incomplete output. Afterwards no file stays open and no helper process running, input files are unchanged, HH and HT files each hold their old or their new matrix, the program can end normally, and the same operation succeeds when repeated.",
  ["crash_points", "fault_sequences", "schedules"], "all file operations, all faults at every read, write, creation or flush of each file, in the main or a helper process, at every batch",
  "Tests exercise no failing file access and no dying helper process.",
  [HP, ELM, H5], [("helper processes and their queues", HP + ":add_data_async/predict_async"), ("helper supervision", H5 + ":_Helper"), ("files closed when an operation ends", ELM + ":closes_hdf5")],
  [("opened_hdf5, helper processes, queues", "files and processes of a running call", HP)], ["outcome of the call", "open HDF5 handles and file descriptors", "child processes", "file contents"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
