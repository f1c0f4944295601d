"""Writes MANIFEST.json: one entry per vf/props/cNN.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
T = dict(
    C01=("differential monitoring against neuron formulas", "Every hidden value and prediction of each executed case is compared with an independent evaluation of the documented formula, within a rounding bound derived from the data."),
    C02=("solution monitor: exact SVD ridge oracle", "Every trained solution is compared with the SVD solution of the model's own hidden layer, within the rounding bound of its precision; where the bound exceeds 1% of the targets only finiteness is decided."),
    C03=("conservation monitor over add-data histories", "Accumulated matrices and solutions after random histories are compared with exact sums over all samples."),
    C04=("differential monitoring of file against array runs", "File and range operations are compared with in-memory ones on the same rows, including guards around the output region and logs of accessed rows."),
    C05=("injected delays, exactly-once log monitor, deadlock watchdog", "Helper processes are delayed at file and queue operations; reads/writes are logged and checked for exactly-once, results compared with synchronous ones; a process tree asleep for 20 s is a deadlock."),
    C06=("controlled scheduling of processes, conservation oracle", "Worker processes are stopped at every file and lock operation and released by seeded schedulers; the final files are compared with the exact sums. Evidence counts distinct interleavings."),
    C07=("kill injection at every schedule point", "A worker is killed at each observed schedule point outside the write window of each scenario; files, other workers and recovery are then checked."),
    C08=("round-trip differential monitoring of save/load", "Random models are saved and loaded into random targets; every observable operation is compared with the original."),
    C09=("weighted least-squares oracle, repetition metamorphic check", "Solutions are compared with exact weighted solutions with weights recomputed from the data, and with training on repeated samples."),
    C10=("reference metric oracle over data, storage and ranges", "Reported errors are compared with an independent implementation of the documented metric."),
    C11=("counting oracle and conservation of cells", "Confusion matrices are compared with independent counts; cell sums and row sums are checked."),
    C12=("retraining oracle for selected sub-networks", "The selected neurons are matched to the original ones and the model is compared with plain training of exactly these."),
    C13=("validation-error oracle with observed rankings", "The ranking drawn by the run is observed (or computed for optimal pruning), errors of candidate sizes are recomputed and the kept size is judged; the returned CV error is recomputed."),
    C14=("reference path oracle for regression ranking", "Rankings are compared with an independent step-by-step computation, and under prefix, scaling and permutation changes."),
    C15=("brute-force leave-one-out oracle", "The kept size is judged by errors of N retrainings without one sample each."),
    C16=("sub-network oracle for validation with correlation files", "Errors, confusion matrices and the installed model are recomputed from the correlation files and the validation data."),
    C17=("round-trip monitor with an independent reader", "Files made from random sources are read back with PyTables/h5 directly and compared bit by bit."),
    C18=("statistical oracle, repetition monitor", "Normalised files are compared with two-pass means and deviations; repeated calls must change nothing."),
    C19=("checksums of inputs and model state around operations", "All inputs and the model state are hashed before and after each operation; inputs are given write-protected; repeated results are compared bitwise."),
    C20=("state snapshots around refused calls", "Refused calls are made at random points of a history; model state and files are compared before/after and with a run without them."),
    C21=("history-independence monitor", "A model with a random history and a fresh one are trained by the same call and compared."),
    C22=("lock-step differential monitoring of solvers", "The same operations are executed on all solvers in lock step, the GPU one on a NumPy model of the documented CUDA library semantics; states are compared after each."),
    C23=("reference model of the neuron store", "Random sequences of neuron changes are executed in lock step with a small reference model."),
    C24=("mode state machine monitor", "Random sequences of constructor and training flags are executed and compared with the documented mode rules and the resulting metrics."),
    C25=("dtype and accuracy monitor", "Types of all stored and created data are checked, single precision results are compared with double precision ones."),
    C26=("range and membership oracle with observed sampling", "Centroids are checked to be rows, widths against bounds recomputed from the data and the drawn random numbers."),
    C27=("bitwise replay under threads, forks and interleavings", "The same sequences of operations run alone and interleaved/concurrently on other models; results are compared bitwise."),
    C28=("random operation sequences over shared file names, handle monitor", "Sequences of operations on a few files are executed in lock step with an array-based model; open handles are counted after every call."),
    C29=("tracemalloc monitor over two data sizes and over repeated calls", "Peak and retained memory of the process and its helpers are observed for every operation on two sizes; their growth is judged against the size of one array of the added rows."),
    C30=("online checker of printed reports under a controlled clock", "Every batch takes a chosen time of the clock the library reads; printed reports are compared with the batches observed and the clock, results with a silent run."),
    C31=("fault injection at file accesses, helper processes and computations, with hang, handle and process monitors", "One fault is injected at a chosen access; outcome, open files, processes, file contents and a repetition of the operation are observed."),
)
LEVEL = dict(C07="fault_enumeration", C31="fault_enumeration")
NA = []
checks = []
for p in sorted(T):
    if not os.path.exists(os.path.join(HERE, "vf", "props", p.lower() + ".py")):
        NA.append(dict(property=p, reason="no check yet"))
        continue
    t, note = T[p]
    checks.append(dict(property=p, quick_cmd="%s run.py %s --tier quick" % (PY, p), thorough_cmd="%s run.py %s --tier thorough" % (PY, p),
                       technique="runtime monitoring: " + t, level=LEVEL.get(p, "exploration"),
                       level_note=note + " Held on the executions counted in the evidence; nothing is claimed beyond them. Trusts NumPy/SciPy/PyTables as installed."))
json.dump(dict(version=1, setup_cmd=PY + " -c 'import numpy, scipy, tables, fasteners'", checks=checks, not_applicable=NA,
               notes="No hooks in /repo: instrumentation is put into tables, fasteners, multiprocessing and numpy.random from /verif (vf/hooks.py). See DESIGN.md."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
