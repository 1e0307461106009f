"""What each check runs for real, what it stubs, and what it assumes (goes into the evidence)."""
SCHED = "thread switches happen at synchronisation calls, I/O calls and at memory accesses that another thread has touched (plus every 128th access); code is sequentially consistent under the simulator, weak-memory effects are only caught as data races by the happens-before detector"
BASE_ASSUME = [SCHED, "sampling: a seeded search, not an exhaustive enumeration", "the compiler instrumentation (-fsanitize=thread) sees every access of AmpGen and of the templates it instantiates, not those inside the pre-built C++ and C libraries"]
POOL_REAL = ["AmpGen thread pool, options parser and utilities (built from /repo)", "libstdc++ containers, futures, std::thread, std::mutex, std::condition_variable front ends"]
POOL_STUB = ["kernel scheduler, futex and pthread blocking primitives (simulated)", "clocks and sleeping (simulated)", "heap (deterministic, never reuses memory)"]
def pool(rule, **k): return dict(rule=rule, real=POOL_REAL, stub=POOL_STUB, assume=BASE_ASSUME, **k)
JIT_ASSUME = BASE_ASSUME + ["temporary names made by the C library do not repeat", "a crash ends the process; the page cache survives (no power loss)", "a library that a process has loaded stays loaded under its path", "libraries in the cache are keyed by the name of the expression"]
def jit(rule, **k): return dict(rule=rule, real=["AmpGen expressions, resolver, code generation, compiler wrapper, loader of compiled functions (built from /repo)", "the C++ compiler, run for real once per distinct source and its output kept", "dlopen of the produced library"], stub=["fork/exec/waitpid and the life of compiler processes (simulated: when they read, write, fail, are killed or outlive their parent)", "disk (a scratch directory behind the simulator, with injected faults)"] + POOL_STUB, assume=JIT_ASSUME, **dict(dict(quick=50), **k))
def text(rule, **k): return dict(rule=rule, real=["AmpGen options, particle table, parameters, particles, expressions, utilities (built from /repo)", "libstdc++ file streams and directory reading front ends"], stub=["disk (a scratch directory behind the simulator, with injected faults)"] + POOL_STUB, assume=BASE_ASSUME, **k)
MODEL_ASSUME = JIT_ASSUME + ["values are compared with a relative tolerance of 1e-8", "the oracle evaluates each amplitude for one event at a time through the same code generator (its values are P08's subject); sums, normalisations, likelihoods, caches and histories are recomputed independently"]
PLAIN_ASSUME = BASE_ASSUME + ["ROOT's containers are stand-ins with bounds checks"]
def model(rule, own_assume=None, **k): return dict(rule=rule, model=True, real=["AmpGen models, integrators, stores, event lists, matrix elements, particles, code generation, compiler wrapper, thread pool, options (built from /repo, vectorised with AVX2)", "the C++ compiler, run for real once per distinct source"], stub=["ROOT's random generator, vectors, trees and files (small stand-ins in rootstub/; ROOT is not installed here)", "process creation, loading and disk (simulated)", "threads, clocks and OpenMP runtime (simulated)"], assume=own_assume or MODEL_ASSUME, **k)
META = {
 "P01": pool("workload: 1-3 submitting threads, 0-7 tasks each, 0-5 workers, tasks that sleep, throw or submit further tasks, thread creation and allocation failing"),
 "P02": pool("workload: 1-8 tasks of four result types whose handles are read in different orders, from other threads, with timeouts, or after the pool ended"),
 "P03": pool("workload: 0-8 tasks, 0-5 workers, explicit waits repeated up to twice, late submissions, destruction"),
 "P04": pool("workload: the pool switched off by option; handles, nested and concurrent submissions as in P01/P02"),
 "P05": pool("workload: groups of tasks that can finish only together, after idle or busy phases"),
 "P06": pool("workload: ranges of 0-120 elements with ties, any grain size, sorted or reversed inputs, failing comparisons"),
 "P07": dict(rule="workload: 0-60 elements, 1-8 cores, five value types", real=["AmpGen utilities and SIMD types (built from /repo)"], stub=["OpenMP runtime (own, simulated threads; teams, static/dynamic loops, critical sections, atomics)"] + POOL_STUB, assume=BASE_ASSUME),
 "P08": jit("workload: 1-2 of 22 expressions (generated complex, real, tensor-valued and vectorised ones, linear ones compared bit by bit, splines), or 2-4 compiled together; up to 5 live copies; 2-16 operations (parameter, knot and lambda changes of any magnitude, updates, resets, copies, assignments, moves, removals, recompilation), every live object checked after every operation; faults in a third of the runs"),
 "P09": jit("workload: one expression, perhaps with a damaged library in the cache, 1-4 attempts with every step able to fail, then a healthy attempt"),
 "P10": jit("workload: 2-5 concurrent compilations in threads or pool tasks, same or different names and prefixes, faults in a third of the runs"),
 "P11": jit("workload: 1-4 processes that crash or fail at random points, orphaned compilers, damaged libraries, the same expression with and without its batch function, then two healthy processes"),
 "P12": jit("workload: 1-4 compilations, sequential or concurrent or several expressions in one library, each step able to fail; descriptors, children and exit handlers counted"),
 "P13": text("workload: 1-2 files of 0-25 lines (up to 150000 characters), five reading modes, 1-3 readers"),
 "P14": text("workload: 1-4 options files with imports, 1-4 steps of imports, command lines and assignments, then comparison with an independent model"),
 "P15": text("workload: 2-5 threads with 1-4 first uses each; reference from a single-threaded process"),
 "P16": text("workload: three generated tables, 1-8 steps of imports, aliases and edits, then comparison with an independent model (masses, widths, their errors, spin, parities, charge, quarks, labels)"),
 "P17": text("workload: 1-14 operations of sixteen kinds, then comparison with an independent model after every operation"),
 "P18": text("workload: 2-4 threads with 1-4 items each of decays, lineshapes, look-ups and shared objects; reference from a single-threaded process"),
 "P19": text("workload: 1-3 threads with 1-40 timed segments each, clock jumps in both directions"),
 "P20": text("workload: trees of up to 10 entries and their children, three listings each with generated patterns, 1-2 threads"),
 "P21": model("workload: coherent sums, incoherent sums and their sum with 1-4 amplitudes of two decays, four lists of 1-13 weighted events, 1-14 operations (couplings, shape parameters, yields, lists of events, preparation, copies), then norm, integrals, every probability, components, evaluators, likelihood and the fractions with their errors"),
 "P22": model("workload: polarised sums of a spinless decay, of a baryon decay with polarisation, of a spin-1 decay with vector and tensor polarisation, of a radiative decay with a polarisation fraction, and in flavour space, four lists of 1-9 weighted events, 1-12 operations, then norm, every probability, components, evaluators and likelihood"),
 "P23": model("workload: 1-4 processes building coherent, incoherent or polarised sums 1-3 times each, with every step of the compilations and the start of threads able to fail and the process able to crash, then a healthy build"),
 "P24": model("workload: lists of 0-60 events in both layouts, 2-14 operations of 23 kinds (adding, removing, filtering, transforming, weighting, copying, converting, writing to and reading from trees, resizing, changing through iterators, histograms in one and two dimensions by component and selection, reading one or several files), every event compared with a plain model after every operation", own_assume=PLAIN_ASSUME),
 "P25": model("workload: coherent, incoherent and polarised sums of 1-3 amplitudes, phase space or decay-chain generator, 1-3 samples of 0-30 events in blocks of 1-24, changed parameters in between, perhaps generated again with another number of threads; candidates accepted and rejected one by one by the oracle; a fifth of the runs compare 1000-60000 candidates of the three phase-space generators, weighted by the inverse of their density, with an independent phase space (shares in up to 22 quantities; 7 standard deviations)"),
 "P26": model("workload: 0-900 events in 1-3 coordinates, binnings of one sample, of two samples and flat ones; saved and loaded 1-3 times on a disk that may fail, crash while saving, files cut anywhere, missing files", own_assume=PLAIN_ASSUME),
 "P27": model("workload: 1-8 parameters (free, fixed, constant, blind, with limits), 1-8 operations (fits, covariances, asymmetric errors, scans, fixing, freeing, constraints (Gaussian and from the particle table), results and their copies, propagation of errors) with a small minimiser", own_assume=PLAIN_ASSUME+["the minimiser itself is a stand-in (pattern search): what is decided is what AmpGen gives to it and makes of its result"]),
 "P28": model("workload: 1-8 parameters with covariances, observables and fractions, written and read 1-4 times on a disk that may fail, crash while writing, files cut anywhere, missing files; options written from the result, alone or in place of an options file", own_assume=PLAIN_ASSUME),
 "P29": model("workload: coherent and polarised sums of 1-3 amplitudes of 3- and 4-body decays (couplings as pairs or expressions, polar or cartesian), decays of a spin-1 mother with tensor polarisation, a photon with polFrac, 0-4 changes before each of 1-4 exports to the same path, by processes that may crash and with every step of writing, compiling and loading able to fail; the library loaded by a later process and every function in it compared for three events"),
 "P30": model("workload: 1-3 threads, each with a set of 7 parameters, 2-7 parameters given by generated expressions of these and of each other, 1-8 operations (changes, resets, further and malformed expressions, renaming, compiled uses and their updates), read in four ways after every operation; sets of conjugate parameters"),
 "P31": model("workload: main() of the generator with options for coherent, incoherent and polarised models of 1-4 amplitudes, single decays, conjugates and models without amplitudes, three phase-space generators, 1-25 events in blocks of 20-90, 1-8 threads, run 1-4 times with the same options on the same disk, every step of writing, compiling and loading able to fail and the process able to crash in all but the last; every event, plot and library value compared by a later process"),
 "P32": model("workload: main() of the converter with trees of 3- and 4-body candidates, in MeV or GeV, with or without energies, ids, several candidates per event, selections, weights, densities from a library, trees with friends, plots, antiparticles and orders of the particles, run 1-3 times with the same options on the same disk, reading and writing able to fail and the process able to crash in all but the last; every event, weight and plot compared by a later process"),
 "P33": model("workload: main() of the fitter with signal, background, both, and both with misidentified decays, 1-3 amplitudes each, 0-2 free parameters, tied fractions, parameters that are released late, selections of data and simulation of 24-60 events, units, 1-4 threads, run 2-3 times with the same options on the same disk, every step of reading, writing, compiling and loading able to fail and the process able to crash in all but the last; log, likelihood, minimum, chi2, fractions and plots recomputed by a later process"),
}
