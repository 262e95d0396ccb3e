import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SEQ="The test suite is single-threaded and fault-free: it makes each call once, on fresh objects, and looks only at the returned value."
prop("C01","Concurrent callers do not affect each other's results",
 "When several threads build, print and evaluate programs and call decorated functions at the same time, sharing functions, programs, arrays and environment mappings as they please, every operation yields exactly what it yields when run alone: the same value, type and shape, or a failure if and only if it fails alone. No interleaving makes an operation fail, return another caller's data, or never finish.",
 ["schedules","programs","inputs"],"every interleaving of every set of operations on every backend, whatever objects they share",
 SEQ+" Interleavings inside staging or evaluation are never produced.",
 ["ein/frontend/functions.py","ein/backend/array_backend.py","ein/backend/numpy_backend.py","ein/backend/torch_backend.py","ein/backend/jax_backend.py","ein/codegen/phi_to_yarr.py","ein/codegen/array_indexing.py"],
 [("a fresh environment per call","ein/frontend/functions.py Function._interpret"),("environments copied before evaluation","ein/backend/*_backend.py interpret"),("per-transform memo tables","ein/codegen/phi_to_yarr.py transform")],
 [("Function._staged","staged executables per argument types and backend","ein/frontend/functions.py"),("matching caches","process-wide memo tables, cleared after each transform","ein/codegen/array_indexing.py")],
 ["values and exceptions returned by Function.__call__/.numpy/.torch/.jax, .eval, interpret, debug printing"])
prop("C02","A failed or interrupted evaluation leaves no trace",
 "If building, staging, evaluating or printing fails part-way - an interrupt, stack exhaustion, a failed allocation, an exception from user code, a numeric trap, ill-fitting data - then every later operation, on the same function, program or environment or on others, yields exactly what it would have yielded had the failed one never been attempted. A disturbed operation itself either fails or returns the right result, never wrong data.",
 ["fault_sequences","crash_points","programs"],"every fault at every point at which the interpreter can raise it, followed by every later use",
 SEQ+" No test lets an evaluation fail half-way and then goes on using the same objects.",
 ["ein/frontend/functions.py","ein/backend/array_backend.py","ein/backend/numpy_backend.py","ein/codegen/phi_to_yarr.py","ein/codegen/array_indexing.py","ein/phi/phi.py"],
 [("staged executable stored only after staging succeeded","ein/frontend/functions.py Function._interpret"),("environment private to a call","ein/backend/numpy_backend.py interpret"),("memo tables cleared on failure","ein/codegen/phi_to_yarr.py transform")],
 None,["results of operations after a failure"])
prop("C03","Evaluation never modifies the caller's data",
 "Arrays passed as arguments, wrapped into programs or captured as constants, arrays they are views of, environment mappings handed to an evaluation, and arrays returned by earlier evaluations are never changed in contents, shape, strides, flags or membership by building, staging, evaluating or printing anything - not even temporarily, as seen by user callbacks and other threads, and not when the evaluation fails. Overwriting a returned array that does not share memory with the caller's own data does not change what later evaluations return.",
 ["programs","inputs","schedules","fault_sequences"],"every program, memory layout, backend, observation instant and failure point",
 SEQ+" Tests compare results but not the inputs, and rarely use strided, broadcast or read-only arrays or repeated evaluation.",
 ["ein/codegen/phi_to_yarr.py","ein/backend/numpy_backend.py","ein/backend/array_backend.py","ein/backend/torch_backend.py"],
 [("in-place operations restricted to fresh temporaries","ein/codegen/phi_to_yarr.py apply_inplace_on_temporaries"),("padding and bound arrays copied","ein/backend/numpy_backend.py fast_edge_pad, ein/backend/array_backend.py"),("environments copied","ein/backend/numpy_backend.py interpret")],
 None,["bytes, shape, strides and flags of caller-owned arrays; entries of caller-owned mappings"])
prop("C04","Results do not depend on what was evaluated before",
 "What a call or evaluation returns depends only on its program, its arguments and the backend: not on earlier calls of the same function with other values, shapes, ranks or element kinds or on other backends, not on which objects were since garbage-collected or which identities were reused, and not on the clock. Any sequence of operations yields the same results as running each in a fresh process.",
 ["histories","inputs"],"every sequence of calls, evaluations, drops, collections and clock jumps in one process",
 SEQ+" Cache hits after differently typed calls, or after objects died, are sampled a handful of times at most.",
 ["ein/frontend/functions.py","ein/value.py","ein/term.py","ein/codegen/phi_to_yarr.py","ein/codegen/array_indexing.py"],
 [("cache key of argument types and backend","ein/frontend/functions.py Function._interpret"),("content or identity equality of constants","ein/value.py Value.__eq__")],
 [("Function._staged","executables kept between calls","ein/frontend/functions.py")],["returned values"])
prop("C05","Results do not depend on hash or enumeration order",
 "Evaluating the same program on the same data yields the same result (up to floating-point rounding) in every process, whatever the interpreter's hash seed, the addresses and numbering of objects, and the resulting enumeration order of sets of variables, indices and subterms. Failures are equally reproducible, and no part of a result is uninitialised memory.",
 ["configurations","programs","inputs"],"every hash seed and every enumeration order of every set the compiler iterates over",
 "Tests run under whatever order one process happens to have, and each program is compiled once.",
 ["ein/codegen/axial.py","ein/codegen/phi_to_yarr.py","ein/midend/size_classes.py","ein/phi/phi.py","ein/frontend/ndarray.py","ein/backend/numpy_backend.py","ein/midend"],
 [("axes aligned by sorting or by explicit order","ein/codegen/axial.py"),("size choices independent of set order","ein/midend, ein/midend/size_classes.py")],
 None,["returned values under permuted orders"])
prop("C06","Different variables print differently, and the same one always alike",
 "Within a process no two distinct variables, and no two distinct indices, ever print under the same name, and each prints under the same name every time, no matter how many threads create and print them at once and what interrupts them. Printed programs therefore denote the program they were made from.",
 ["schedules","fault_sequences"],"every interleaving of first printings and every interruption of one",
 "Tests print on one thread only.",
 ["ein/symbols.py","ein/debug/pprint.py"],
 [("numbering on first print","ein/symbols.py Symbol.__repr__")],[("Symbol._ids","numbers handed out so far","ein/symbols.py")],["repr of Variable and Index, pretty-printed programs"])
prop("C07","Evaluation may be entered again from within evaluation",
 "A user callback or a function being traced may itself build, print and evaluate programs, call decorated functions - including the one in progress, with the same or other arguments - and use the same environment mapping; both the inner and the outer operation yield what they yield alone.",
 ["programs","histories","schedules"],"every nesting at every callback or tracing instant",
 "No test evaluates from within a callback or a traced function.",
 ["ein/frontend/functions.py","ein/backend/array_backend.py","ein/backend/numpy_backend.py","ein/frontend/ndarray.py","ein/codegen/phi_to_yarr.py"],
 [("no ambient state during evaluation","ein/backend/array_backend.py stage"),("staged executable registered after tracing","ein/frontend/functions.py")],None,["inner and outer results"])
prop("C08","Callbacks run exactly when and as often as the evaluation demands",
 "User callbacks embedded in a program run only while that program is being evaluated - never while building, type-checking, staging, tracing or printing - and as often as it demands them: those that depend on the counter or accumulator of a fold once per iteration, others once for all indices together on the array backends and once per element on the reference backend, structurally equal calls shared. Two evaluations of the same program on the same data make the same calls with the same arguments, whatever happened before or happens concurrently. When a callback fails, its exception reaches the caller as the same object, no further callback of that evaluation runs and nothing is retried; after an interruption none has run more often than in an undisturbed evaluation.",
 ["programs","fault_sequences","schedules","histories"],"every program with callbacks, every failure point, every interleaving",
 SEQ+" Tests with extrinsics check only the value, not how often or when the callback ran.",
 ["ein/frontend/ndarray.py","ein/phi/phi.py","ein/backend/array_backend.py","ein/codegen/phi_to_yarr.py","ein/midend"],
 [("extrinsic operands evaluated in the staged executable only","ein/backend/array_backend.py yarr.Extrinsic"),("let-binding of shared subterms","ein/midend/lining.py")],None,["the sequence of callback invocations and their arguments; the exception object"])
prop("C09","Evaluation does not touch standard input or output",
 "Building, tracing, staging and evaluating programs and rendering them to text write nothing to standard output and read nothing from standard input, and work and return the same when the standard streams are closed, full, broken or absent - also when the operation fails.",
 ["configurations","programs","fault_sequences"],"every program and backend under every state of the standard streams",
 "The test runner captures output and ignores it.",
 ["ein/backend/jax_backend.py","ein/backend/array_backend.py","ein/frontend","ein/debug/pprint.py"],
 [("no printing in library code","ein/backend, ein/codegen, ein/frontend")],None,["sys.stdin, sys.stdout and file descriptors 0 and 1"])
prop("C10","Arrays, programs and functions are released when their users drop them",
 "Once the caller has dropped an array, a program, an environment, a decorated function and every result derived from it, the library keeps none of them alive, whether the evaluations that used them succeeded or failed, for every backend that does not cache by itself; in particular a long-lived decorated function does not keep alive the arguments of its past calls.",
 ["histories","fault_sequences","programs"],"every sequence of successful and failed evaluations",
 "Memory kept by caches is invisible to tests that look at values.",
 ["ein/codegen/array_indexing.py","ein/codegen/phi_to_yarr.py","ein/frontend/functions.py","ein/value.py","ein/term.py"],
 [("memo tables cleared after each transform","ein/codegen/phi_to_yarr.py transform"),("memo tables local to one compilation","ein/codegen/phi_to_yarr.py, ein/midend")],
 [("matching caches","process-wide","ein/codegen/array_indexing.py")],["weak references to caller-owned objects"])
prop("C11","Process-wide and thread-wide settings are left alone",
 "No operation changes, even temporarily as seen by other threads, process-wide settings - random generators, recursion limit, warning filters, numpy print options and error callbacks, torch and jax defaults, garbage-collector switches, environment variables, working directory, standard streams, hooks - and the calling thread's own settings (floating-point error handling, gradient mode, tracing hooks) are the same after an operation as before, also when it fails.",
 ["programs","fault_sequences","schedules"],"every operation, every failure point, every observation instant by another thread",
 "Tests do not compare process settings before and after, let alone after failures.",
 ["ein/backend","ein/frontend","ein/codegen","ein/debug"],
 [("no global configuration in library code after import","ein/backend/*_backend.py")],None,["about thirty settings compared after each operation and at each thread switch"])
prop("C12","Saving a drawing writes the whole requested file or reports an error",
 "Saving a program's drawing under a path either leaves the complete drawing at exactly the requested path (given extension, given format or the default) and returns, or raises; a full disk, a short or failing write, a failing close, a missing directory permission or a missing or failing renderer is never reported as success, and no other file is left behind at a path nobody asked for.",
 ["fault_sequences","inputs","schedules"],"every disk or renderer fault at every write, every form of path and format",
 "Nothing in the test suite saves a drawing.",
 ["ein/debug/graph.py"],[("path and format resolution, delegated write","ein/debug/graph.py save_graph")],None,["files in the target directory; exceptions"])
prop("C13","Programs are immutable values that can be shared and reused",
 "Evaluating, printing, drawing, type-checking or building upon a program never changes it: its printed form, type, layout, free variables and meaning on every backend stay what they were when it was built, so the same program object can be evaluated repeatedly, used in several larger programs and shared by threads, in any order and also after failed uses.",
 ["histories","schedules","fault_sequences","programs"],"every sequence of uses of every shared program",
 SEQ+" Tests build a program, use it once and throw it away.",
 ["ein/term.py","ein/phi/phi.py","ein/codegen/yarr.py","ein/frontend/ndarray.py","ein/frontend/layout.py","ein/midend"],
 [("frozen terms","ein/phi/phi.py, ein/codegen/yarr.py"),("transformations build new terms","ein/midend, ein/codegen")],None,["printed form, type, layout, free symbols and results before and after"])
prop("C14","A stalled caller never blocks the others",
 "While one thread is held up for however long inside a user callback or inside a function being traced, every operation of every other thread - also on the same function, program or environment - completes with its normal result.",
 ["schedules"],"every point inside user code at which a thread may stall, every set of other operations",
 "Tests use one thread.",
 ["ein/frontend/functions.py","ein/backend/array_backend.py","ein/codegen/phi_to_yarr.py"],
 [("no lock held while user code runs","ein/frontend/functions.py, ein/backend")],None,["completion and results of the other threads within the step budget"])
prop("C15","Interrupts, resource failures and user errors reach the caller unchanged",
 "When a keyboard interrupt, stack exhaustion, a failed allocation or an exception raised by user code occurs inside building, tracing, staging, evaluating or printing, the operation ends by raising exactly that exception to its caller: it is not swallowed, retried, delayed past the end of the operation or replaced by another one.",
 ["fault_sequences","crash_points","programs"],"every such exception at every point at which the interpreter can raise it",
 "Tests never inject a failure in the middle of an operation.",
 ["ein/frontend","ein/backend","ein/codegen","ein/midend","ein/phi","ein/debug"],
 [("no catch-all handlers","ein/")],None,["the exception the caller receives"])
prop("C16","A function body is traced at most once per argument types and backend",
 "The Python body of a decorated function runs only to trace it: for callers that call one at a time, once a call with given argument types (ranks and element kinds) on a backend has succeeded, no later call with the same types on that backend runs the body again, whatever its values and shapes and whatever else was evaluated or failed in between, and no single call runs it more than once. Side effects of the body therefore do not repeat.",
 ["histories","fault_sequences"],"every sequence of calls, successes and failures",
 SEQ+" Tests call each function a few times and do not count how often its body ran.",
 ["ein/frontend/functions.py"],[("cache of staged executables","ein/frontend/functions.py Function._interpret")],[("Function._staged","executables by types and backend","ein/frontend/functions.py")],["number of executions of the user's function body per call"])
PURE="A pure function of the program and its inputs: no schedule, clock, fault, I/O or history enters it, so sampling it would be input generation, not simulation."
NA=[]
def na(id,title,statement,over,text,why,files,mech,reason=PURE):
    prop(id,title,statement,over,text,why,files,mech); NA.append({"property":id,"reason":reason})
na("C20","Compiled programs mean what their comprehensions say","For every well-typed program and data, evaluation returns for each index the value the comprehension's body has at that index.",["programs","inputs"],"every program and input","Tests sample a few hundred programs.",["ein/codegen/phi_to_yarr.py","ein/codegen/axial.py"],[("axial transformation","ein/codegen/phi_to_yarr.py")])
na("C21","All backends agree","For every program and data, the numpy, torch, jax and reference backends return equal results or all fail.",["programs","inputs","configurations"],"every program, input and backend","Tests compare backends on sampled programs.",["ein/backend"],[("shared staging","ein/backend/array_backend.py")])
na("C22","Ill-typed programs are rejected when built","A program that type-checks never fails at evaluation because of element kinds, ranks or record shapes; one that does not raises while being built.",["programs"],"every program","Tests list a few rejections.",["ein/phi/phi.py","ein/frontend/ndarray.py"],[("types of terms","ein/phi/phi.py")])
na("C23","Inferred sizes are those of the indexed arrays","Where a comprehension gives no size, it is inferred from the arrays the index is used on, and inconsistent sizes are rejected.",["programs","inputs"],"every program and shape","Tests sample shapes.",["ein/frontend/comprehension.py","ein/midend/size_classes.py"],[("size inference","ein/frontend/comprehension.py")])
na("C24","Out-of-range indexing clips to the nearest element","Reading an array outside its bounds returns the nearest element along that axis.",["programs","inputs"],"every index expression","Tests sample offsets.",["ein/codegen/array_indexing.py"],[("slice and pad","ein/codegen/array_indexing.py")])
na("C25","Records survive the round trip through arrays","Tuples, dictionaries and frozen dataclasses of values come back from indexing and evaluation with their structure.",["programs"],"every record type","Tests sample record types.",["ein/frontend/layout.py"],[("layouts","ein/frontend/layout.py")])
na("C26","Reductions equal folds for monoids","For an associative operation with identity, a reduction equals the left fold and an empty one the identity.",["programs","inputs"],"every monoid and size","Tests sample sizes.",["ein/backend/array_backend.py","ein/frontend/std.py"],[("reduce","ein/backend/array_backend.py")])
na("C27","Optimisations preserve meaning","Every combination of the compiler's optimisation switches yields the same results.",["programs","configurations"],"every program and switch setting","Tests use the default switches.",["ein/codegen/phi_to_yarr.py","ein/midend"],[("switches","ein/codegen/phi_to_yarr.py transform")])
na("C28","Printed programs read as the program they show","The pretty-printed text denotes the printed term unambiguously.",["programs"],"every program","Tests compare a few strings.",["ein/debug/pprint.py"],[("precedences","ein/debug/pprint.py")],"A pure function of the term once names are distinct and stable, which C06 decides.")
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in P))
checks=[]
TRUST="Seeded search, not proof: a clean batch is evidence over the sampled programs, schedules and faults. Trusts numpy, torch and XLA calls to be atomic and correct, CPython's sys.monitoring, and the operation run alone in a fresh process as the reference."
notes={"C01":"Token-passing scheduler with preemption at lines, bytecodes and calls of ein's code; outcomes compared with solo executions.",
"C02":"Faults at sampled interpreter-level events, then reuse; outcomes compared with solo executions.",
"C03":"Byte-exact watchers on caller-owned memory during and after runs, under schedules and faults.",
"C04":"Simulated call histories with collections, identity reuse and clock jumps, against fresh-process executions.",
"C05":"Hash, identity and set-order seams permuted by seed, several PYTHONHASHSEEDs, against the unpermuted execution.",
"C06":"Interleavings of first printings at bytecode granularity, with interruptions; uniqueness and stability of names.",
"C07":"Nested evaluations injected at callback and tracing instants, against solo executions.",
"C08":"Logged callback invocations under schedules and faults, against the log of the undisturbed evaluation and, for the corpus, against the number of calls the program prescribes.",
"C09":"Recording and failing standard streams plus captured descriptors.",
"C10":"Weak references to everything the caller dropped, after runs with faults.",
"C11":"Settings compared after each operation and at each simulated thread switch.",
"C12":"Simulated disk faults around real files in a scratch directory; the renderer (graphviz) is a stub.",
"C13":"Fingerprints of shared programs before and after schedules with faults, outcomes against fresh programs.",
"C14":"Threads stalled in user code by the scheduler; progress of the others within a step budget, deadlocks detected.",
"C15":"Exceptions injected at sampled interpreter-level events; the caller must receive that very exception.",
"C16":"Counts of body executions over simulated call histories with faults."}
for p in P:
    i=p["id"]
    if i in notes:
        checks.append({"property":i,"quick_cmd":f"/opt/venv/bin/python check.py {i}","thorough_cmd":f"VERIF_TIER=thorough /opt/venv/bin/python check.py {i}","technique":"deterministic simulation with fault injection (seeded schedules and faults)","level":"exploration","level_note":notes[i]+" "+TRUST})
json.dump({"version":1,"setup_cmd":"/opt/venv/bin/python tools/ready.py","checks":checks,"not_applicable":NA,"notes":"No hooks in /repo: the simulator loads ein's sources and uses sys.monitoring, module-level seams and callbacks. KNOWN_FINDINGS.txt lists repaired defects."},open('/verif/MANIFEST.json','w'),indent=1)
