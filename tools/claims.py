CLAIMED = {
 "C01": {"technique": "Deterministic simulation: simulated processes and threads on one real cache directory under a lock-step controller (seeded interleaving of every file operation and line), near-colliding requests; each outcome compared with the same call with caching disabled and with TensorWaves and SymPy called without this package",
         "note": "Sampled sequences of requests, schedules and restarts; real files and real caching code; one known finding (incomplete entries of ampform's symbolic cache)."},
 "C02": {"technique": "Deterministic simulation: seeded histories of lambdify, update_parameters and evaluation by several owners (threads, processes, restarts), each owner's history compared with its isolated replay without cache",
         "note": "Sampled histories and schedules; equality of parameters, number types and numerical values."},
 "C03": {"technique": "Deterministic simulation with fault injection: crashes before, after and in the middle of every file operation, errno, short I/O, full disk, interruptions and power loss with damaged unsynced files (down to single sectors), clock jumps; later calls compared with uncached references and repair demanded",
         "note": "Sampled fault sequences at sampled file operations; one known finding (ampform's symbolic cache does not repair incomplete entries)."},
 "C04": {"technique": "Deterministic simulation with fault injection: processes that are killed or interrupted, restarts under other hash seeds, working directories, spellings of the cache directory and histories; number of performed operations checked against the recorded history of completed calls",
         "note": "Work is counted at sympy.lambdify and doit; one known finding (the identity of a request depends on object sharing)."},
 "C05": {"technique": "Deterministic simulation: rolling upgrades and downgrades of simulated processes with other release numbers on one cache directory; every result carries the versions of its maker, checked over the recorded history",
         "note": "Versions are what importlib.metadata and sys.version_info report in the simulated process."},
 "C06": {"technique": "Deterministic simulation with fault injection: complete trace of file operations (patched layer and audit hook) of simulated processes under crashes, I/O faults and concurrency; tree compared before and after",
         "note": "Every written path must lie below the configured directory; foreign files must keep their contents; NO_CACHE touches nothing."},
 "C13": {"technique": "Deterministic simulation with fault injection: failing, short and interrupted reads of the definition files under threads, caller-side changes of the loaded databases and hostile working directories; content compared with an independent model",
         "note": "Sampled faults at every read and open of the two definition files; PDG tables are loaded by the import of qrules."},
 "C07": {"technique": "Deterministic simulation: seeded scheduler over threads of the real library (line/call preemption via sys.monitoring), each thread's history compared with isolated single-process references",
         "note": "Sampled programs of calls and sampled schedules (random, PCT, targeted preemption points); no fault kinds apply besides preemption; pure-Python preemption at lines and call boundaries of ampform_dpd and its caches."},
 "C08": {"technique": "Deterministic simulation: seeded histories of calls with caller-side mutation of every returned object, each outcome compared with a fresh-process reference",
         "note": "Sampled histories over the generated operation grammar (36 kinds of operation)."},
 "C09": {"technique": "Deterministic simulation with fault injection: seeded asynchronous interruptions, allocation failures and callback exceptions at sampled call sites (also of amplitude builders that stay in use), later outcomes compared with pristine references and, for registrations, a map model",
         "note": "Fault points are call sites of the library and starts of the methods that attrs generates; extension modules are atomic."},
 "C10": {"technique": "Deterministic simulation: seeded histories of registrations, reads, failures, interruptions and threads on one builder against an executable map model",
         "note": "Reference model: a plain map from chains (by equality) to builders, last write wins, failed writes change nothing."},
 "C11": {"technique": "Deterministic simulation: the same request under seeded hash randomisation, allocation addresses, histories and garbage collection in separate interpreters; structural digests must agree",
         "note": "Digest covers types, number types, order of mappings, names and LaTeX; 8 hash seeds per run drawn from the seed."},
 "C12": {"technique": "Deterministic simulation: transitions delivered in reordered, duplicated, lazily streamed and failing deliveries; outcome compared with that of the plain delivery",
         "note": "Streams may fail after any element; retries must give the plain result."},
 "C14": {"technique": "Deterministic simulation: interleaved imports with custom lineshapes, failing builders, threads; each import compared with its isolated reference",
         "note": "Real importer, real model fragment generator; schedules sampled."},
 "C15": {"technique": "Deterministic simulation: objects transported between interpreters with other hash seeds and histories; workers with reordered, lost and duplicated answers; compared with local counterparts",
         "note": "Transport is pickle (protocols 2-5) or cloudpickle over 1-2 hops."},
}
