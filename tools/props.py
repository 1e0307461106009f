#!/usr/bin/env python3
"""The text of the properties; writes properties.jsonl and MANIFEST.json (run by hand after a change)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, tests, files, mech, **k):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None), **k))
POOL = ["AmpGen/ThreadPool.h", "src/ThreadPool.cpp"]
prop("P01", "Every task accepted by the thread pool is run exactly once",
     "A task whose submission to the thread pool returned normally is executed exactly once before the destruction of the pool returns, whatever other tasks and threads do. A submission that is refused (during shutdown, or for lack of memory) never executes its task, and refusing it leaves the pool usable. This holds also for tasks submitted by tasks or by several threads at once, for tasks that throw, and when fewer worker threads than asked for could be started.",
     ["schedules", "fault_sequences", "histories"], "all interleavings of submitters, workers and shutdown; spurious wake-ups; failing thread creation and allocation",
     "no test uses the thread pool with a controlled schedule or with a failing thread or allocation; the defects are lost wake-ups and races", POOL,
     [("task queue under a mutex, workers waiting on a condition variable", "AmpGen/ThreadPool.h, src/ThreadPool.cpp")])
prop("P02", "The handle of a task delivers the value or the exception of that task",
     "Waiting on the handle returned by a submission yields the value returned, or rethrows the exception thrown, by exactly that task, with the arguments it was submitted with. It is never ready before the task has finished and never left unready after it, in whatever order, from whatever thread, and however long after the end of the pool handles are used.",
     ["schedules", "histories"], "all interleavings, result types, orders of reading handles",
     "no test reads handles of concurrently running tasks; outcomes that are swapped, torn or missing need particular interleavings", POOL,
     [("packaged tasks shared between queue and handle", "AmpGen/ThreadPool.h")])
prop("P03", "Shutting a thread pool down runs what is queued, then ends every worker",
     "Waiting for a thread pool, or destroying it, returns only after every accepted task has finished and every worker thread has ended, and it always returns once the tasks can finish. It can be waited for any number of times and destroyed afterwards, and a submission after or during shutdown is either run or refused with an error, never silently dropped.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of shutdown with submissions and idle or busy workers",
     "deadlocks, dropped tasks and double joins at shutdown depend on the interleaving and are reached by no test", POOL,
     [("stop flag, notify, join", "src/ThreadPool.cpp")])
prop("P04", "A thread pool that is switched off gives the same outcomes in the caller",
     "When the thread pool is switched off by the option for it, every submitted task is run exactly once, in the thread that submits it, before the submission returns. Its handle then delivers the value or exception like that of a running pool, and exceptions of tasks do not reach the submitter in any other way.",
     ["configurations", "histories", "schedules"], "all task sequences, nested and concurrent submissions",
     "no test runs the pool in this configuration", POOL, [("enqueue in the disabled state", "AmpGen/ThreadPool.h")])
prop("P05", "A blocked task does not keep idle workers from running other tasks",
     "With n workers, up to n tasks that can only finish together do finish: as long as a worker is idle and a task is queued, the task is started without waiting for other tasks to end. This holds after any history of idle and busy phases and with spurious wake-ups.",
     ["schedules", "histories"], "all interleavings of submissions with workers going idle",
     "lost wake-ups show only for particular interleavings of submission and waiting", POOL, [("one notification per task, predicate re-checked under the mutex", "AmpGen/ThreadPool.h, src/ThreadPool.cpp")])
prop("P06", "Parallel sorting returns the sorted input for any size, order and schedule",
     "Sorting a range in parallel leaves a permutation of its elements ordered by the given comparison, for any length, grain size, order and number of ties. If a comparison throws, the exception reaches the caller after all concurrent work has ended, and no element is accessed by two threads at once.",
     ["schedules", "inputs", "fault_sequences"], "all inputs and grain sizes, all interleavings of the concurrent halves, exceptions in any of them, failing thread creation",
     "no test calls it; the defects depend on sizes, on the interleaving and on which half fails", ["AmpGen/Utilities.h"], [("recursive halves, one asynchronous", "AmpGen/Utilities.h: parallel_sort")])
prop("P07", "Parallel accumulation gives the sequential result on any number of cores",
     "Summing a function over a range in parallel calls the function exactly once per element and returns the sequential result (up to rounding of the summation order), for any number of threads, any schedule and empty ranges. No accumulator is accessed by two threads without synchronisation.",
     ["schedules", "configurations", "inputs"], "all team sizes, loop schedules and interleavings",
     "the tests run it, if at all, on one machine with one team size and an uncontrolled schedule", ["AmpGen/Utilities.h"], [("OpenMP reduction over per-thread sums", "AmpGen/Utilities.h: parallel_accumulate")])
JIT = ["src/CompilerWrapper.cpp", "AmpGen/CompilerWrapper.h", "src/CompiledExpressionBase.cpp", "AmpGen/CompiledExpression.h", "AmpGen/DynamicFCN.h", "src/CacheTransfer.cpp", "src/ASTResolver.cpp"]
prop("P08", "A compiled expression evaluates to its definition after any history",
     "Once compilation of an expression has reported success, evaluating it, alone or in batches, gives the value of its definition for the event and for the parameter values at its last update (before the first, those when it was made), after any history of parameter changes, updates, resets, copies, moves and repeated compilations. Copies and other expressions that use the same parameters are not affected by what is done to it.",
     ["histories", "inputs", "fault_sequences"], "all expressions of the generator, all histories of operations, with failing and retried compilations in between",
     "the tests evaluate single expressions once; stale caches and mixed-up parameters need histories", JIT, [("external parameter cache and its transfer on update", "src/CacheTransfer.cpp, AmpGen/CompiledExpression.h"), ("parameter addresses assigned by the resolver", "src/ASTResolver.cpp")])
prop("P09", "A failed just-in-time compilation is reported and can be repeated",
     "If any step of a just-in-time compilation fails (no temporary file, full disk, compiler that cannot be started, fails, is killed or leaves an incomplete library, library that cannot be loaded), the failure is reported to the caller and the expression does not pretend to be usable. Repeating the compilation after the cause has gone succeeds, with the right values, in the same process. Interruptions by signals and short writes are not failures.",
     ["fault_sequences", "histories"], "every fault at every step, sequences of failures and retries",
     "the tests only compile on a healthy machine", JIT, [("exit status, write status and library are checked before success is reported", "src/CompilerWrapper.cpp")])
prop("P10", "Concurrent compilations do not disturb each other",
     "Compilations of any expressions running at the same time in one process, also of the same expression under the same cache prefix and of different expressions of the same name without one, each succeed and give their own expression the right values, exactly as if they had run alone. A failure of one is not seen by the others (under a cache prefix a name identifies an expression).",
     ["schedules", "fault_sequences"], "all interleavings of compilations in threads or pool tasks, with failures of individual steps",
     "no test compiles concurrently", JIT, [("distinct temporary sources and private outputs per compilation", "src/CompilerWrapper.cpp")])
prop("P11", "The library cache is never poisoned by crashes or failed compilations",
     "Whatever point a process crashes at or a step fails at while compiling into the library cache, a later process that asks for the same expression obtains the right values without manual clean-up. A library appears under its final name only when complete, one that cannot be loaded is replaced, and one that was completed is reused rather than compiled again.",
     ["crash_points", "fault_sequences", "histories"], "every crash point of up to four earlier processes (compilers may outlive them), then a healthy process",
     "no test crashes a process or damages the cache", JIT, [("library built under a temporary name and renamed", "src/CompilerWrapper.cpp")])
prop("P12", "Compilations leave no open files, child processes or run exit handlers",
     "After any sequence of successful and failed compilations, of single expressions or of several together, no file descriptor stays open, no child process stays unreaped, and a child that could not start the compiler never runs the exit handlers of its parent.",
     ["histories", "fault_sequences"], "all sequences of compilations with failing steps, concurrent or not",
     "leaks are invisible to tests that compile a few expressions", JIT, [("descriptor closed and child awaited on all paths, _exit in the child", "src/CompilerWrapper.cpp")])
prop("P13", "Reading a text file yields every line, or the failure is reported",
     "Reading a text file line by line hands over exactly the lines of the file in order, without line ends, leaving out only empty lines and those that begin with the caller's ignore character (with none given, nothing is left out), for any line length and line end, with or without a final line end. If the file cannot be opened or read completely, an error is raised and what was handed over before is a beginning of the file; the file is closed in any case.",
     ["inputs", "fault_sequences", "schedules"], "all file contents; short, interrupted and failing reads at any point; several readers",
     "the tests read shipped files from a healthy disk", ["src/Utilities.cpp", "AmpGen/Utilities.h"], [("line reader that checks the stream state", "AmpGen/Utilities.h: processFile, src/Utilities.cpp: vectorFromFile")])
prop("P14", "Options have the value assigned last; loading is complete or reported",
     "After any sequence of options files (with imports, also mutual ones, blocks, quotes, comments and environment variables in paths), command lines and single assignments, each option has exactly the tokens of its last assignment and every option never assigned has its default; the ordered listing has each option once. If a file cannot be read completely an error is raised, no option then has a value that nobody assigned, and loading it again once it is readable sets all of them.",
     ["histories", "inputs", "fault_sequences"], "all sequences of files, imports, command lines and assignments; reads failing at any point; concurrent readers of the result",
     "the tests set few options in one order and never fail a read", ["src/OptionsParser.cpp", "AmpGen/OptionsParser.h", "AmpGen/NamedParameter.h", "src/NamedParameter.cpp", "src/Utilities.cpp"],
     [("parser state and map of last assignments", "src/OptionsParser.cpp"), ("quote and brace aware splitting", "src/Utilities.cpp")])
prop("P15", "Process-wide tables are made once, complete, whoever uses them first",
     "The options, the particle table and the tables derived from them are created by their first use: any number of threads using them for the first time at the same moment all see the same, complete and immutable table. If loading fails, every affected user gets an error, and a later use loads the table completely.",
     ["schedules", "fault_sequences"], "all interleavings of first uses by two to five threads, reads failing at any point",
     "the tests are single-threaded and never fail a read", ["src/OptionsParser.cpp", "src/ParticlePropertiesList.cpp", "src/ParticleProperties.cpp", "src/QuarkContent.cpp", "AmpGen/Factory.h", "AmpGen/NamedParameter.h"],
     [("initialisation of function-local statics", "src/OptionsParser.cpp, src/ParticlePropertiesList.cpp, src/QuarkContent.cpp")])
prop("P16", "The particle table has each listed particle and its anti-particle, always",
     "Every particle of the loaded tables, and its anti-particle where it has one, is found by name and by identification number with the mass, width and their errors, spin, parities, charge, quarks and label given for it; nothing else is found. After any history of imported tables, aliases and property changes by option, look-ups give the latest values, and particles obtained earlier stay valid.",
     ["histories", "inputs", "fault_sequences"], "all generated tables, histories of imports, aliases and edits; reads failing at any point; concurrent look-ups",
     "the tests look up a few particles of the shipped table", ["src/ParticlePropertiesList.cpp", "src/ParticleProperties.cpp", "AmpGen/ParticlePropertiesList.h"],
     [("table with maps by name and by number into stable storage", "src/ParticlePropertiesList.cpp")])
prop("P17", "A parameter set is consistent by name, index and order after any history",
     "After any history of adding, looking up, renaming, removing, setting, resetting and loading parameters from files or options, a parameter set has exactly the parameters it was given, in order of insertion, each found under its current name and no other, with the value, start value, step, limits and flag last given to it. Looking for a parameter that is not there changes nothing and is reported, and objects handed out stay valid and in place. Printing a set shows each parameter once, and never the value of a blind one.",
     ["histories", "inputs", "fault_sequences"], "all histories of operations, files that fail to be read at any point",
     "the tests build a few parameters and read them back", ["src/MinuitParameterSet.cpp", "AmpGen/MinuitParameterSet.h", "src/MinuitParameter.cpp", "AmpGen/MinuitParameter.h"],
     [("vector of owned parameters plus map by name", "src/MinuitParameterSet.cpp")])
prop("P18", "Amplitudes built by several threads equal those built alone",
     "Decay trees, lineshapes, spin factors and the source code generated for them come out identical to those built by a single thread when several threads build theirs at the same time, from cold or warm tables, and when they share expressions or decay trees that none of them changes. No two threads access the same memory without synchronisation while doing so.",
     ["schedules", "inputs"], "all interleavings of two to four threads, each building up to four items of a menu of decays, lineshapes and look-ups",
     "the tests build amplitudes in one thread only", ["src/Particle.cpp", "src/Lineshapes.cpp", "src/Lineshapes/", "src/Vertex.cpp", "src/Expression.cpp", "src/Tensor.cpp", "src/Wigner.cpp", "src/ASTResolver.cpp", "src/CompiledExpressionBase.cpp", "AmpGen/Factory.h"],
     [("no shared mutable state apart from registries filled before use", "AmpGen/Factory.h, src/Tensor.cpp")])
prop("P19", "Measured durations are never negative and match the time that passed",
     "A timer that is started and stopped any number of times reports the total time between its starts and stops, a running timer the time since its start, and a profile the time its function took, all never negative and never decreasing, also when the system clock is set forward or back while they run.",
     ["histories", "fault_sequences", "schedules"], "all start/stop histories with clock jumps in either direction and stalled threads",
     "tests cannot set the clock back", ["AmpGen/ProfileClock.h"], [("monotonic clock", "AmpGen/ProfileClock.h")])
prop("P20", "Directory listings return exactly the matching entries",
     "Listing a directory with a pattern returns the path of each entry that matches it exactly once and nothing else, where a wildcard stands for any sequence of characters, in the pattern and in the last component of the directory, and environment variables in the path are replaced. Directories are closed afterwards, also if one of them cannot be opened, in which case only its own entries are missing.",
     ["inputs", "fault_sequences", "schedules"], "all generated trees and patterns, directories that cannot be opened, concurrent listings",
     "no test lists directories", ["src/Utilities.cpp"], [("pattern matching and recursion over matching directories", "src/Utilities.cpp: getListOfFiles")])
MODELS = ["AmpGen/CoherentSum.h", "src/CoherentSum.cpp", "src/IncoherentSum.cpp", "AmpGen/Integrator.h", "src/Integrator.cpp", "AmpGen/Store.h", "AmpGen/SumPDF.h", "src/MatrixElement.cpp"]
prop("P21", "A model gives the probability and likelihood of its current parameters",
     "After preparation, a coherent sum, an incoherent sum or a sum of both gives the normalisation, the probability of each event and the likelihood that follow from the current values of all parameters, the current events with their weights and the current normalisation sample, after any history of parameter changes, replaced samples and copies; its fit fractions and interference fractions are those of the same values and leave the parameters as they were. The result does not depend on the number of threads or their interleaving, nor on whether the number of events fills the vector registers.",
     ["histories", "schedules", "inputs"], "all histories of parameter changes, preparations, replaced samples and copies; all sample sizes and weights; all thread counts and interleavings",
     "no test builds a model (they are not even compiled without ROOT); stale caches, padding and races need particular histories, sizes and schedules", MODELS,
     [("caches of amplitudes and bilinears updated on change", "src/CoherentSum.cpp: prepare, updateNorms"), ("vectorised integration", "AmpGen/Integrator.h"), ("likelihood over blocks", "AmpGen/SumPDF.h")])
prop("P22", "Polarised models give the probability of the current parameters",
     "After preparation, a sum over spin states or over a flavour space gives the normalisation, the probability of each event and the likelihood that follow from the current couplings, shape parameters and polarisation, the current events with their weights and the current normalisation sample. This holds after any history of changes, replaced samples and copies, for any number of threads.",
     ["histories", "schedules", "inputs"], "all histories of parameter and polarisation changes, replaced samples and copies; all sample sizes and weights; all interleavings of the threads that build the model",
     "no test builds a polarised model", ["AmpGen/PolarisedSum.h", "src/PolarisedSum.cpp", "AmpGen/Store.h", "AmpGen/Integrator.h"], [("amplitudes built by pool tasks", "src/PolarisedSum.cpp: constructor"), ("spin density matrix and bilinears", "src/PolarisedSum.cpp: prepare, updateNorms")])
prop("P23", "Building a model succeeds, or its failure is reported before it is used",
     "When an amplitude of a model cannot be compiled or a thread cannot be started, an exception reaches the caller at the latest when the model is prepared; the process does not crash, hang or compute with incomplete amplitudes. A model built without a report has the right values, nothing fails if nothing is wrong, and once the faults are gone the model can be built in the same or a new process.",
     ["fault_sequences", "schedules", "crash_points"], "all failures of writing, compiling, loading, forking and starting threads in any task; crashes of the process at any point",
     "no test injects faults into the compilation of a model", ["src/CoherentSum.cpp", "src/IncoherentSum.cpp", "src/PolarisedSum.cpp", "src/CompilerWrapper.cpp"], [("pool tasks that compile the amplitudes", "src/CoherentSum.cpp, src/PolarisedSum.cpp: constructors"), ("readiness tested before use", "src/CoherentSum.cpp: prepare")])
prop("P24", "A list of events holds exactly the events that were put into it",
     "After any history of adding, removing, filtering, transforming, weighting, copying, converting between the two layouts and writing to and reading from trees and files (one or several), a list holds exactly the events it should, in their order, with their weights, densities and numbers, however they are reached. Sums over a list and its histograms count each selected event once with its weight and its padding not at all, whatever the number of events.",
     ["histories", "inputs"], "all histories of operations on lists of any size in both layouts",
     "no test uses lists of events (they are not compiled without ROOT); what is lost or counted twice depends on the size and on the history", ["src/EventList.cpp", "src/EventListSIMD.cpp", "AmpGen/EventList.h", "AmpGen/EventListSIMD.h", "AmpGen/TreeReader.h", "AmpGen/Store.h"], [("scatter iterator over the vectorised layout", "AmpGen/EventListSIMD.h"), ("reading from and writing to trees", "src/EventList.cpp, src/EventListSIMD.cpp: loadFromTree, tree")])
prop("P25", "Generated samples follow from the model and the random numbers alone",
     "A sample generated from a model has exactly the events that accepting and rejecting the candidates in their order gives, as many as were asked for unless a whole block of candidates gives none, each with the density of the model at the current parameters. It is the same for any number of threads, leaves events already in the list alone, and leaves the model fit for further use. The candidates of every phase-space generator have the masses and the total momentum of the decay, and follow phase space once weighted by the inverse of the density they carry.",
     ["schedules", "histories", "inputs"], "all models, block sizes, sample sizes, seeds, parameter changes between samples, thread counts",
     "no test generates a sample from a model", ["AmpGen/Generator.h", "src/PhaseSpace.cpp", "src/TreePhaseSpace.cpp", "src/RecursivePhaseSpace.cpp", "AmpGen/DecayChainStack.h", "src/PolarisedSum.cpp", "src/CoherentSum.cpp"], [("accept-reject over blocks of candidates", "AmpGen/Generator.h: fillEventList")])
prop("P26", "Binnings are complete, filled as asked, and the same after saving",
     "An adaptive binning made from a sample puts every event into exactly one bin, has no bin with fewer events than asked for (if the sample has that many), and is the same whenever it is made from the same events. A binning that was saved without an error being reported gives every event the same bin after loading; missing, incomplete or unwritable files are reported, whatever the disk does and wherever a process stops.",
     ["fault_sequences", "crash_points", "inputs"], "all samples, minimum fillings and depths; all failures of the disk while saving and loading; crashes at any point; files cut anywhere",
     "no test makes or saves a binning", ["src/BinDT.cpp", "AmpGen/BinDT.h", "src/Chi2Estimator.cpp", "src/FastDT.cpp" , "AmpGen/FastDT.h"], [("recursive division and numbering", "src/BinDT.cpp: makeNodes"), ("text form of the tree", "src/BinDT.cpp: serialize, readFromStream")])
prop("P27", "A fit moves only the free parameters and reports what it found",
     "A fit changes no parameter that is fixed, constant or a shift, leaves the others at the minimum that was found, within their limits, and its result has their values, errors, covariances, status and number as found, also in copies and after asymmetric errors, scans or error propagation, which put back what they change. Errors propagated to functions of the parameters are those that the covariances give.",
     ["histories", "inputs"], "all sets of parameters and histories of fits, scans, asymmetric errors, fixing, freeing and constraints",
     "no test makes a fit (it is not compiled without ROOT)", ["src/Minimiser.cpp", "AmpGen/Minimiser.h", "src/FitResult.cpp", "src/ErrorPropagator.cpp", "AmpGen/ErrorPropagator.h"], [("mapping between parameters and those of the minimiser", "src/Minimiser.cpp: prepare, doFit"), ("copying of results", "src/FitResult.cpp")])
prop("P28", "The result of a fit is the same after it was written and read",
     "A result that was written without an error being reported is read back with the same parameters, limits, errors, covariances, quality, observables and fractions, and the options written from it give the parameters their fitted values again and keep the rest of the options. Missing, incomplete or unwritable files are reported, whatever the disk does and wherever a process stops.",
     ["fault_sequences", "crash_points", "inputs"], "all results; all failures of the disk while writing and reading; crashes at any point; files cut anywhere",
     "no test writes a result", ["src/FitResult.cpp", "src/MinuitParameter.cpp", "AmpGen/FitResult.h"], [("text form of a result", "src/FitResult.cpp: writeToFile, readFile"), ("options in place of old lines", "src/FitResult.cpp: writeOptions")])
prop("P29", "An exported model computes what the model computes",
     "A model that was exported as source code and library without an error being reported gives, in any later process, the amplitudes, probabilities (divided by the normalisation that was asked for, for either parity and any polarisation), names and event type that the model had at its current parameters. A failed or interrupted export is reported and leaves no library that is incomplete or gives other values than those of a completed export, and it can be repeated once the cause has gone.",
     ["fault_sequences", "crash_points", "histories"], "all models and histories of parameter changes before an export; all failures of writing, compiling and loading; crashes at any point",
     "no test exports a model", ["src/CoherentSum.cpp", "src/PolarisedSum.cpp", "src/CompilerWrapper.cpp", "src/CompiledExpressionBase.cpp", "AmpGen/CompiledExpression.h"], [("functions written with parameters and couplings as numbers", "src/CoherentSum.cpp, src/PolarisedSum.cpp: generateSourceCode"), ("several expressions in one library", "src/CompilerWrapper.cpp: compile")])
prop("P30", "Parameters given by expressions follow the parameters they are made of",
     "A parameter defined by an expression has, at any time, the value of that expression for the current values of the parameters in it, also when these are given by expressions, however the definitions were loaded and whatever was changed, reset or added since; compiled uses of it have the value at their last update, and conjugates made for a set of parameters follow their originals. Malformed expressions and unknown names are reported and change nothing else. This holds for several threads that define and use parameters of their own at the same time.",
     ["histories", "schedules", "inputs"], "all expressions, histories of definitions and changes, and interleavings of threads with parameters of their own",
     "the tests parse a few expressions once", ["src/ExpressionParser.cpp", "AmpGen/ExpressionParser.h", "src/MinuitExpression.cpp", "src/MinuitParameterSet.cpp", "src/AddCPConjugate.cpp", "src/ASTResolver.cpp", "src/AmplitudeRules.cpp"], [("operators applied in order of precedence", "src/ExpressionParser.cpp: parseTokens"), ("links to the parameters", "src/ExpressionParser.cpp: MinuitParameterLink")])
prop("P31", "The generator program writes the sample or library that its options ask for",
     "A run of the generator (apps/AmpGen.cpp) that ends without reporting an error leaves an output with exactly the number of events that was asked for, all of the decay that was asked for (or its conjugate), on shell, conserving momentum, with weight one and with the density that the model of the options has there, and with plots of exactly these events; or, for source-only output, a usable library whose value is the model's probability divided by the normalisation that was asked for. The same options give the same output for any number of threads, any schedule and whatever earlier runs left behind. A model without amplitudes, an output that cannot be written and a failing compiler are reported, never a wrong output.",
     ["schedules", "fault_sequences", "crash_points", "histories"], "all options and models; all schedules and thread counts; all failures of writing, compiling and loading; crashes of earlier runs at any point",
     "no test runs a program (it is not compiled without ROOT)", ["apps/AmpGen.cpp", "AmpGen/Generator.h", "src/OptionsParser.cpp", "src/MinuitParameterSet.cpp", "src/EventList.cpp", "src/EventType.cpp", "src/PhaseSpace.cpp", "src/TreePhaseSpace.cpp", "src/RecursivePhaseSpace.cpp", "src/AddCPConjugate.cpp"], [("options to model to generator to output", "apps/AmpGen.cpp: main, generateEvents"), ("normalised libraries", "apps/AmpGen.cpp: generateSource")])
prop("P32", "The converter program keeps exactly the selected candidates, unchanged",
     "A run of the converter (apps/DataConverter.cpp) that ends without reporting an error leaves an output with exactly the candidates of the input trees that pass the selection, in the order of the input, one per event and run unless several are asked for, with the particles in the order of the decay (identical ones possibly exchanged), in GeV, with energies from the masses where none are given, with momenta reversed for antiparticles if that is asked for, with the product of the weights that are asked for as weight, and with plots of exactly these events. The same options give the same output whatever earlier runs left behind. Missing inputs, selections that nothing passes and outputs that cannot be written are reported, never a wrong output.",
     ["fault_sequences", "crash_points", "histories"], "all options and input trees; all failures of reading and writing; crashes of earlier runs at any point",
     "no test runs a program (it is not compiled without ROOT)", ["apps/DataConverter.cpp", "src/EventList.cpp", "src/EventType.cpp", "src/TreeReader.cpp", "src/OptionsParser.cpp"], [("options to selection to output", "apps/DataConverter.cpp: main"), ("order of the particles", "src/EventType.cpp: EventType::automaticOrdering")])
prop("P33", "The fitter program finds the best parameters and reports their results",
     "A run of the fitter (apps/Fitter.cpp) that ends without reporting an error leaves a complete log with all parameters, the fixed ones at their values of the options and the free ones, if the fit converged, at a minimum of the likelihood of the selected data under the model of the options, normalised on the selected simulation, with momenta in the units that the options state; the likelihood, chi2, number of free parameters and fit fractions of the log are those of its parameters, and the plots are those of the selected data and of the selected simulation weighted by each component. The same options give the same result for any number of threads, any schedule and whatever earlier runs left behind. Missing inputs and fractions, outputs that cannot be written and a failing compiler are reported, never a wrong result.",
     ["schedules", "fault_sequences", "crash_points", "histories"], "all options, models and samples; all schedules and thread counts; all failures of reading, writing, compiling and loading; crashes of earlier runs at any point",
     "no test runs a program (it is not compiled without ROOT)", ["apps/Fitter.cpp", "AmpGen/SumPDF.h", "src/Minimiser.cpp", "src/FitResult.cpp", "src/Chi2Estimator.cpp", "src/CoherentSum.cpp", "src/IncoherentSum.cpp", "src/OptionsParser.cpp", "src/MinuitParameterSet.cpp", "src/EventListSIMD.cpp"], [("options to model to fit to results", "apps/Fitter.cpp: main, doFit")])
EXTRA = os.path.join(V, "tools", "props_extra.py")
if os.path.exists(EXTRA): exec(open(EXTRA).read())
NA = []
def na(id, title, statement, over, quant, tests, files, mech, reason): prop(id, title, statement, over, quant, tests, files, mech); NA.append(dict(property=id, reason=reason))
PURE = "a pure function of its arguments: no schedule, clock, I/O, randomness or fault can change its outcome, so a simulator has nothing to decide; it needs input generation or proof, which is another technique"
na("N01", "Simplifying an expression does not change its value", "Rewriting, normal ordering and common-subexpression elimination of expressions keep their value for every assignment of their parameters.", ["inputs"], "all expressions and assignments", "the tests check a few identities", ["src/Simplify.cpp", "src/Expression.cpp", "src/BinaryExpression.cpp", "src/UnaryExpression.cpp"], [("rewriting rules", "src/Simplify.cpp")], PURE + "; values of compiled expressions are decided by P08 for its generator")
na("N02", "A decay descriptor survives printing, parsing and CP conjugation", "Parsing the printed descriptor of a decay gives the same decay, and conjugating twice gives back the original.", ["inputs"], "all decay trees", "the tests parse a few descriptors", ["src/Particle.cpp", "src/AddCPConjugate.cpp"], [("recursive parser and printer", "src/Particle.cpp")], PURE)
na("N03", "Lineshapes, spin factors and tensors follow their formulas", "Propagators, barrier factors, K-matrices, spin factors and tensor contractions have the documented values for all masses and momenta.", ["inputs"], "all kinematics and quantum numbers", "the tests compare a few points", ["src/Lineshapes/", "src/Vertex.cpp", "src/Tensor.cpp", "src/Wigner.cpp", "src/DiracMatrices.cpp"], [("formulas", "src/Lineshapes/")], PURE)
na("N04", "Vectorised mathematics equals scalar mathematics", "Each vectorised function gives, lane by lane, the value of its scalar counterpart.", ["inputs"], "all lane contents", "the tests check a few values", ["AmpGen/simd/"], [("vector types", "AmpGen/simd/")], PURE)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: (p["id"][0] != "P", p["id"])): f.write(json.dumps(p) + "\n")
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences of the real code under a simulated scheduler, clock, disk and process table"
import sys; sys.path.insert(0, os.path.join(V, "tools")); from meta import META
checks = []
for p in P:
    if p["id"][0] != "P": continue
    m = META[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 tools/amp.py check %s --tier quick" % p["id"], thorough_cmd="python3 tools/amp.py check %s --tier thorough" % p["id"], technique=TECH, level="exploration",
                       level_note="sampled, not exhaustive; " + m["rule"] + ". A violation is confirmed by three exact repetitions of its seed, minimised, and written as a replay file (python3 tools/amp.py replay FILE)."))
man = dict(version=1, setup_cmd="python3 tools/amp.py setup", hooks=dict(guard="AMPGEN_SIM", enable="none needed: no hooks were added to /repo; the seams are the C library, the OpenMP runtime and the compiler's memory-access instrumentation (the checks define AMPGEN_SIM=1 when building AmpGen, nothing in /repo tests it)", source_commits=[]), checks=checks, not_applicable=NA,
           notes="Runs are decided by VERIF_SEED and numbered seeds; 'python3 tools/amp.py determinism ID N' repeats N seeds in three processes and compares. Genuine defects that were repaired are listed in KNOWN_FINDINGS.txt.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
