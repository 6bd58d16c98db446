"""Single source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, pathlib
S = "src/ampform_dpd/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CACHED = S + "io/cached.py"
BLD = S + "__init__.py"
ADP = S + "adapter/qrules.py"
SER = [S + "io/serialization/amplitude.py", S + "io/serialization/dynamics.py", S + "io/serialization/decay.py"]

prop("C01", "Caching is transparent: a cached operation always answers for its own input",
 "Every call of the cached operations that the package offers (lambdify, doit, unfold, subs, xreplace, simplify, trigsimp) gives the result that the same call would give with caching disabled (symbolic results up to the evaluation that SymPy performs whenever an expression is unpickled). For lambdify this covers the numerical values, the order and names of the arguments, the parameter defaults with the values and number types that were requested, and the requested backend and floating-point precision. It holds no matter which other calls were made before or are being made at the same time, by other threads or by other processes that share the cache directory, and across restarts.",
 ["histories", "schedules", "programs"],
 "For every sequence of calls with any expressions, parameter mappings and backends (equal-hashing, equal-printing and otherwise nearly identical ones included), distributed over any number of threads and processes that share one cache directory, for every interleaving and every restart in between.",
 "tests/test_cached.py performs each operation once or twice in one process on one model with one empty cache directory; it never makes two near-identical requests in one history, and never has two threads or processes.",
 [CACHED], "two cache layers (a per-process memo and a pickle file named by a digest of the pickled arguments) in front of the symbolic operation",
 [("per-process memo", "maps equal argument tuples to the previously returned object"), ("cache directory", "files named by the digest of function, versions and arguments")])

prop("C02", "Numerical functions handed out by lambdify are independent of one another",
 "A parametrized function obtained from lambdify belongs to the caller that asked for it: updating its parameter values never changes the parameter values or results of any function handed out before or afterwards. Every newly requested function starts with exactly the parameter values of its own request. This also holds when the requests are equal, come from different threads or are answered from the cache on disk.",
 ["histories", "schedules"],
 "For every sequence or interleaving of requests, parameter updates and evaluations by any number of callers and threads, in one process or over restarts that share the cache directory.",
 "No test updates the parameters of a function and then requests the same function again; that needs a history of at least three steps and two owners.",
 [CACHED], "what the memo and the disk cache store versus what is returned to the caller")

prop("C03", "A crash or I/O fault never makes a cached expression unusable",
 "After a process is killed, interrupted or loses power at any moment, and after any failing, short or out-of-space read or write in the cache directory, later calls of the cached operations in the same or any other process work as if the cache were intact: they return the correct result, or recompute it, and never a wrong one. While a fault is present a call may fail with the operating-system error of that fault or with the interruption itself, but with nothing else. Once the faults have stopped every call succeeds, and damage left behind by an earlier fault is repaired, so that the following process finds a usable entry again.",
 ["crash_points", "fault_sequences", "schedules"],
 "For every crash point and every sequence of I/O faults in any call, including faults during recovery itself and readers that run while a writer is half-way.",
 "The tests run on a healthy disk and are never killed; a truncated entry in the cache directory is a state they cannot reach.",
 [CACHED], "non-atomic creation of cache files and the way in which existing files are read back",
 [("cache file", "may exist while empty, partial or lost after a crash")])

prop("C04", "Completed cached results are durable and are found again after a restart",
 "When a call of lambdify or doit has returned normally on a healthy disk, the same call in any process started later with the same software and the same cache directory is answered from that directory, without performing the operation again. This holds whatever the hash seed, working directory, process and thread in which the later call is made, and whichever other calls were made in between.",
 ["histories", "schedules"],
 "For every history of calls and restarts and every randomisation of Python's string hashing; a concurrent call may do duplicate work, but must leave a usable entry.",
 "Tests compare hashes under a fixed PYTHONHASHSEED in one process; they never restart the interpreter and never count how often the work is done.",
 [CACHED], "the digest that names a cache file must be a function of the request only, not of the process that makes it")

prop("C05", "Cache entries of other software versions are never reused",
 "A cached result written by a process with one release of Python (3.x), SymPy, JAX, AmpForm, AmpForm-DPD, TensorWaves or cloudpickle is never served by lambdify to a process in which any of these is another release. Processes with different versions can share one cache directory at the same time, without any of them seeing entries of the others, and after going back to earlier versions the earlier entries are still usable.",
 ["histories", "configurations", "schedules"],
 "For every sequence of upgrades and downgrades of any of those components, with any interleaving of calls by processes on different versions (a rolling upgrade).",
 "Tests run with one installed version of everything, so that no test can observe what happens to an entry of another version.",
 [CACHED], "the versions which enter the digest of a cache entry")

prop("C06", "The cache keeps to its own directory",
 "The package creates, changes and removes files only below the cache directory that the environment configures (COMPWA_CACHE_DIR, otherwise the system cache directory), and nothing in it that is not its own entry; the files of other programs in that directory keep their contents. With caching disabled (NO_CACHE) lambdify and the other operations work without touching any file of that directory. This holds for every result of every call, including calls that fail, are killed or run into I/O faults.",
 ["histories", "fault_sequences", "configurations"],
 "For every environment (each configuration variable set, unset or pointing elsewhere), every history of calls and every fault or crash point in them.",
 "The tests never look at which files are touched, and run with one environment and no faults.",
 [CACHED], "choice of the cache path and what is done around reading and writing an entry")

prop("C07", "Concurrent use gives the results of isolated use under every interleaving",
 "Threads that use the package at the same time - building decays, formulating models with separate or shared builders, configuring dynamics on separate builders, importing serialized models and transitions, rendering, evaluating expressions - each get exactly the result, warning or error that the same calls give when executed alone. No interleaving leads to a deadlock or to a corrupted shared object.",
 ["schedules", "inputs"],
 "For every interleaving of the threads at any point of the execution of the package, and every combination of public operations on shared or separate objects.",
 "All tests are single-threaded; the interleavings of even two calls are far beyond what they could sample.",
 [BLD, S + "decay.py", S + "io/__init__.py", *SER, S + "angles.py", S + "dynamics/builder.py"],
 "module-level caches and shared objects (coupling and amplitude bases, memoised properties, builder and configurator state)",
 [("module-level memo tables", "shared by all threads and all models in the process")])

prop("C08", "Results do not depend on earlier calls, and belong to the caller",
 "The result of every public operation depends only on its arguments and the state of the object it is called on: whatever was computed, rendered, imported or rejected earlier in the process, for the same or for other decays, the result equals the one in a fresh process. Operations never modify the arguments they are given. A caller may modify dictionaries, lists and models that it received without influencing any later result.",
 ["histories", "inputs"],
 "For every history of public operations in one process with any arguments, including modifications of the returned containers between the calls.",
 "Each test starts from one fixed situation and looks at one result; interference needs histories of calls on different, deliberately similar inputs.",
 [BLD, S + "decay.py", *SER, ADP, S + "spin.py", S + "angles.py", S + "io/__init__.py", S + "dynamics/__init__.py"],
 "memoisation and shared mutable objects behind the public functions")

prop("C09", "An interrupted or failing call leaves no trace",
 "When a public operation is cut short at any point - by Ctrl-C, by running out of memory, or by an exception from a user-supplied callback - the error reaches the caller unchanged, and every later operation on the same or on other objects gives the result that it would have given had the failed call never been made. In particular the same call can simply be repeated.",
 ["crash_points", "histories", "fault_sequences"],
 "For every point at which an asynchronous exception, allocation failure or callback error can hit an operation, and every sequence of operations afterwards.",
 "Tests never interrupt an operation half-way; there are thousands of points at which that can happen.",
 [BLD, S + "decay.py", *SER, ADP, S + "io/__init__.py", S + "dynamics/builder.py", CACHED],
 "state that is updated step by step or temporarily while an operation is running")

prop("C10", "Dynamics registrations behave as a map from decay chains to builders",
 "A dynamics builder registered for a decay chain is used for that chain and for no other, in every model formulated afterwards, until it is replaced by a later registration for that chain; a registration by resonance name is one for every chain with that resonance; and a chain without registration gets no dynamics. Models that were formulated earlier do not change, builders of other decays or other amplitude builders are not affected, and a rejected registration or a failing builder changes nothing.",
 ["histories", "schedules", "inputs"],
 "For every sequence of registrations (by name, by chain, invalid), look-ups and formulations on any decay, including decays in which one resonance occurs in several chains, and every interleaving of such sequences on different builders.",
 "Tests register one builder for each resonance of one decay in a fixed order and formulate once.",
 [BLD, S + "dynamics/builder.py"], "the table of dynamics choices and how it is consulted while formulating",
 [("table of dynamics choices", "one builder per decay chain")])

prop("C11", "Models are reproducible: the same input gives the same output in every process",
 "For the same input, every process produces the same decays, models, LaTeX and Markdown, with the chains, amplitudes, variables, parameters and summation terms in the same order, so that outputs of different sessions and machines can be compared literally. This does not depend on the random hash seed, on memory addresses, on time or on the environment.",
 ["inputs", "configurations"],
 "For every input and every seed of Python's hash randomisation and memory layout of the process.",
 "The test suite runs in one process per session, with one hash seed at a time, and compares selected fragments only.",
 [BLD, S + "decay.py", ADP, *SER, S + "io/__init__.py", S + "spin.py"],
 "iteration over sets and dictionaries on the way to ordered results")

prop("C12", "Transition import does not depend on delivery",
 "A decay built from transitions depends only on the set of transitions: delivering them in another order, several times, in another container or through an iterator that can be consumed only once gives the same decay and the same minimal LS selection. When the delivery breaks off with an error, that error reaches the caller; no decay is ever built from only a part of the transitions.",
 ["inputs", "schedules", "fault_sequences"],
 "For every set of transitions, every order, multiplicity and container of delivery, and every point at which the delivering stream can fail.",
 "Tests pass the transitions once, in the order in which the generator happens to emit them and always as a list.",
 [ADP], "conversion, de-duplication, grouping, sorting and minimum-LS filtering of an incoming collection of transitions")

prop("C13", "The particle database loads completely or not at all",
 "Loading the particle database returns all default particles together with the package's own definitions, or fails with the error of the read that failed; it never returns a database in which particles are missing or have other properties. A failed or interrupted read has no effect on later loads, and every load returns a database that the caller may modify without affecting other loads or the files on disk.",
 ["fault_sequences", "crash_points", "histories", "schedules"],
 "For every sequence and interleaving of loads with any read error, short read or interruption at any point, and with any modification of the returned databases in between.",
 "Tests load the database from healthy files once per session.",
 [ADP, S + "particle-definitions.yml"], "combining the definitions of two files in a mutable collection")

prop("C14", "Custom lineshapes of an imported model apply to exactly that import",
 "A custom dynamics builder or label function that is given to one import of a serialized model is used in that import for every propagator of its type, with that propagator, resonance label and model, and in no other import, whatever was imported before, meanwhile or in a nested call. An import whose custom function fails gives that failure to the caller and has no effect on any other import. The definition that is imported is never modified.",
 ["histories", "schedules", "fault_sequences"],
 "For every history and interleaving of imports with any choice of custom functions, including functions that fail at any of their calls and functions that start an import themselves.",
 "Tests import one model without competing, nested or failing custom functions.",
 SER, "merging of built-in and custom lineshape definitions and the flow of the callbacks through the import")

prop("C15", "Decays and models survive transport between processes",
 "A decay, decay chain, amplitude model or dynamics expression that is pickled in one process and unpickled in another one is equal to its counterpart that is created there, has the same hash where it is hashable, and gives the same results in every operation. Formulating a model in several worker processes from transported decays gives the result of a single process, whichever worker does which part and in whichever order the answers arrive.",
 ["schedules", "configurations", "inputs"],
 "For every object, every pair of processes with different hash seeds and memory layouts, every assignment of parts to workers and every order of delivery, with messages duplicated or re-sent.",
 "No test transports objects between processes.",
 [S + "decay.py", BLD, S + "dynamics/__init__.py", SER[0]], "equality, hashing and reconstruction of the data classes and expression classes")

# ------------------------------------------------------------------ not applicable
def na(id, title, statement, text, files, mech):
    prop(id, title, statement, ["inputs"], text,
         "Tests check a handful of kinematic points and published models.", files, mech)
na("P01", "Angles: closed forms, antisymmetry and sum rules hold over phase space",
   "Scattering and alignment angles agree with their definition by boosts and rotations of four-momenta at every physical point, are antisymmetric under exchange of the two subsystems, and satisfy the additive sum rules.",
   "For all masses and physical points.", [S + "angles.py"], "closed-form angle expressions")
na("P02", "The unpolarised intensity does not depend on the reference subsystem",
   "For every decay, the intensity is a non-negative real number at every physical point and is the same for each choice of the reference subsystem.",
   "For all decays, couplings and phase-space points.", [BLD], "Wigner-rotation alignment of the subsystem amplitudes")
na("P03", "LS couplings obey angular-momentum and parity selection rules, completely",
   "The generated LS couplings are exactly those allowed by angular-momentum conservation up to the given maximum, and the parity filter keeps exactly the parity-conserving ones.",
   "For all spins and parities.", [S + "spin.py"], "enumeration of LS couplings")
na("P04", "LS basis and helicity basis describe the same amplitudes",
   "Every model in the LS basis equals the helicity-basis model with the couplings transformed by Clebsch-Gordan coefficients.",
   "For all decays and couplings.", [BLD], "Clebsch-Gordan factors in the chain amplitude")
na("P05", "Lineshapes have their defining values",
   "Each lineshape evaluates to its published definition, with the correct pole, threshold and normalisation behaviour.",
   "For all masses, widths, momenta and angular momenta.", [S + "dynamics/__init__.py"], "evaluate methods of the lineshape classes")
na("P06", "An imported model reproduces the published validation points",
   "A serialized model evaluates to the checksums in its own description at every listed phase-space point.",
   "For all valid model definitions.", SER, "translation of model definitions")
na("P07", "Malformed decays are rejected",
   "A decay or chain with inconsistent particles, repeated state identifiers or invalid spins cannot be constructed.",
   "For all combinations of particles and identifiers.", [S + "decay.py"], "validators of the data classes")
na("P08", "LaTeX and Markdown renderings state the objects faithfully",
   "The rendered particles, chains, couplings and definitions show exactly the quantum numbers and names of the rendered object.",
   "For all objects.", [S + "io/__init__.py"], "rendering functions")
na("P09", "Minimum-LS filtering and identical-particle permutation select the right chains",
   "The minimum-LS filter keeps exactly one transition per resonance and decay topology, with the smallest couplings, and the permutation of equal final states yields every distinct permutation.",
   "For all transition sets.", [ADP], "grouping and permutation of transitions")
na("P10", "One amplitude per helicity configuration, with defaults for every free symbol",
   "A formulated model defines every amplitude, angle and parameter that its intensity refers to, and parameter defaults cover all free symbols except the kinematic variables.",
   "For all decays and builder options.", [BLD, SER[0]], "collection of definitions while formulating")
pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    import re
    n = len(re.findall(r"[.](?:\s|$)", p["statement"]))
    if n > 3: print("sentences?", p["id"], n)
