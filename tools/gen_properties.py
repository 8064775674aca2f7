"""Writes properties.jsonl (one place to edit the statements)."""
import json, pathlib
V="/repo/src/coordinax/"
S="src/coordinax/_src/"
def P(id,title,statement,over,qtext,why,files,mech,observe=(),state=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
        why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook))
vec=S+"vectors/"
rows=[
P("C01","Concurrent and re-entrant callers never disturb each other",
  "When several threads call the library at the same time - on shared or separate objects, and also when the calls are the very first of their kind in the process - every call returns exactly the result, or raises exactly the error and emits exactly the warnings, that it would have produced alone in a fresh process. The same holds when a call is made re-entrantly, from a signal handler or finaliser, in the middle of another call. It holds for every interleaving of the callers.",
  ["schedules","programs"],"every interleaving, at any instruction of the library, of any set of public operations run by two or more threads, or nested in one thread",
  "The tests run on one thread and execute each operation whole; no test ever has two library calls in flight, so a value parked in shared state between two lines cannot be seen.",
  [vec+"base/base.py",vec+"d3/transform.py",vec+"transform/velocities.py",vec+"transform/accelerations.py",S+"operators/pipe.py",S+"operators/galilean/rotation.py",S+"frames/base.py","src/coordinax/_coordinax_space_frames/frame_transforms.py",S+"distances/core.py"],
  [("all intermediate values are locals; all objects are frozen equinox modules; registries are only written at class creation/import",vec+"base/base.py"),
   ("multiple dispatch tables are filled at import and resolved lazily",S+"vectors/api.py")],
  ["return value, exception and warnings of each call, compared with the same call alone in a pristine process"],
  [("dispatch tables and their resolution caches","shared between threads, resolved lazily at first use",S+"vectors/api.py"),
   ("class registries of concrete vector types","shared sets written when a class is created",vec+"base/base_pos.py")]),
P("C02","An interrupted operation leaves no trace",
  "If a library call is cut short at any point by an exception it did not cause - a keyboard interrupt, memory exhaustion, a failing numerical back-end call - that exception reaches the caller and is not swallowed or replaced by a wrong result. Afterwards the same call retried, and every other call, behaves exactly as if the interrupted call had never been made, even when the interrupted call was the first of its kind in the process.",
  ["crash_points","fault_sequences"],"every public operation, every point inside it at which an asynchronous or back-end exception can surface, every exception kind, cold and warm process",
  "The tests never interrupt an operation: a flag, cache entry or registry left half-updated by an exception between two lines is invisible to them.",
  [vec+"base/base.py",vec+"transform/velocities.py",vec+"transform/accelerations.py",vec+"d3/transform.py",S+"operators/base.py",S+"operators/pipe.py",S+"frames/base.py","src/coordinax/_coordinax_space_frames/frame_transforms.py"],
  [("operations write nothing outside their locals, so there is nothing to roll back",vec+"base/base_pos.py")],
  ["outcome of the retried call and of later calls compared with a pristine process","type and identity of the exception seen by the caller"]),
P("C03","Values are immutable: no operation changes an object the caller holds",
  "No operation - construction, conversion, arithmetic, operator application, frame change, display, copying, comparison - changes the observable content of any object it is given (vectors, quantities, arrays, mappings, lists, operators, frames, third-party objects), or of any object returned earlier. This holds at every instant while the operation runs, and whether it completes, fails or is interrupted.",
  ["schedules","crash_points","histories"],"every operation, every observation point during it, completed, failed or interrupted, with objects shared between callers",
  "Tests look at return values; almost none re-reads its inputs, none re-reads them while the call is under way or after it failed half-way.",
  [vec+"base/base.py",vec+"base/attribute.py",S+"distances/core.py",S+"operators/pipe.py",S+"operators/composite.py",S+"frames/xfm.py",vec+"space/core.py"],
  [("frozen equinox modules, immutable arrays, mappings copied before use",vec+"base/base.py")],
  ["deep structural digest of every object a caller holds, at scheduling points and after each call"]),
P("C04","Results do not depend on the history of the process",
  "A call with given arguments has the same outcome - value, type, unit, shape, dtype, error, warnings - whatever the process did before: other calls with other units, shapes, dtypes, parameters or types, in any order, failed or successful, repeated any number of times, with library and compiler caches cold, warm, or dropped at any moment, and objects freed and their memory reused. Two processes that run the same calls in different orders therefore agree call by call.",
  ["histories","fault_sequences"],"every sequence of earlier operations, cache evictions and garbage collections before a call",
  "Each test runs a few calls in one fixed order with one parameter set; a result memoised under an incomplete key is right for all of them.",
  [vec+"base/base.py",vec+"d3/transform.py",vec+"transform/velocities.py",vec+"transform/accelerations.py",vec+"funcs.py",S+"operators/galilean/rotation.py",S+"operators/galilean/boost.py",S+"operators/boost.py",S+"frames/xfm.py","src/coordinax/_coordinax_space_frames/frame_transforms.py",S+"distances/core.py",S+"angles/core.py"],
  [("operations are pure functions of their arguments; every cache (dispatch, compiled code) is keyed by all that matters",S+"vectors/api.py")],
  ["outcome digest of each call, compared between processes with different histories"],
  [("compiled-function and dispatch caches","may be cold, warm or evicted at any call",vec+"transform/accelerations.py")]),
P("C05","Compiling, differentiating or mapping an operation never affects other calls",
  "Using an operation inside a JAX transformation (jit, vmap, forward or reverse differentiation, in any nesting) - whether it completes, or is abandoned by an error while being traced, and even if this is its first use in the process - never changes the outcome of any later call, inside or outside a transformation. A compiled operation gives on every call the outcome a fresh process gives, including on later calls with other values, shapes, units or after the compiled code was evicted.",
  ["histories","crash_points"],"every order of traced, abandoned-trace and plain uses of the operations of a session, for each transformation",
  "Tests call an operation under jit or plainly, in one fixed order, in a process that has usually used it before; state captured during the first trace is not looked at again.",
  [vec+"base/base.py",vec+"transform/velocities.py",vec+"transform/accelerations.py",S+"operators/base.py",S+"operators/pipe.py",S+"frames/base.py",S+"distances/core.py",vec+"converters.py"],
  [("everything an operation touches is an argument or a constant, so nothing traced can outlive its trace",vec+"base/base.py")],
  ["outcomes of later plain and transformed calls; type of every array in them (no tracer)"]),
P("C06","No operation disturbs the caller's process-wide settings",
  "Calling the library, or importing it, leaves the settings that belong to the application as they were: warning filters, array-printing and floating-point-error options, JAX configuration, default units and frame parameters of third-party libraries, random-number state, environment variables, working directory, recursion limit, garbage-collector and signal settings, import hooks, standard streams. This holds when the call returns, raises or is interrupted at any point, and for calls of several threads interleaved in any way.",
  ["crash_points","schedules","configurations"],"every operation, every interruption point, every interleaving with another caller, default and application-changed settings",
  "The tests look at results; the test runner resets warning filters itself, and nothing compares the process settings around a call, let alone around an interrupted one.",
  ["src/coordinax/__init__.py","src/coordinax/setup_package.py",vec+"base/base.py",vec+"transform/accelerations.py",S+"operators/galilean/rotation.py","src/coordinax/_interop/coordinax_interop_astropy/converters.py","src/coordinax/_coordinax_space_frames/_interop/interop_astropy/frames.py"],
  [("import hook is installed as a context manager and removed; nothing else is changed","src/coordinax/__init__.py")],
  ["snapshot of the process-wide settings before and after each call, and at scheduling points for another caller"]),
P("C07","Invalid values are rejected every time and never produced",
  "A request that has no valid result - negative radius or distance, polar angle outside its range, component of the wrong physical dimension, missing or superfluous component, prolate spheroidal coordinates inside the focus, a conversion between kinds of vector or frames with no defined relation, an unsupported operand - raises on every attempt in a plain (not compiled) call and yields no object, whatever ran before or runs concurrently, and however earlier attempts ended. No plain operation on valid values returns a vector that breaks those rules.",
  ["histories","schedules","fault_sequences"],"every mix of valid, invalid, interrupted and concurrent operations before and around an invalid request",
  "Tests try each invalid request once, first thing, in a quiet process; none checks that rejection survives earlier success, failure or interruption.",
  [vec+"checks.py",vec+"base/attribute.py",vec+"d3/spherical.py",vec+"d3/lonlatspherical.py",vec+"d3/mathspherical.py",vec+"d3/spheroidal.py",vec+"d3/cylindrical.py",vec+"d2/polar.py",S+"distances/core.py",S+"frames/null.py",S+"frames/errors.py"],
  [("per-instance validation on construction; run-time checks embedded in the computation",vec+"checks.py")],
  ["exception of each invalid request; range of each component of every vector returned"]),
P("C08","Every information-losing conversion warns, every time; no other one does",
  "Each time a plain (not compiled) conversion drops a dimension of a vector, the caller gets an irreversible-dimension-change warning - on every call, not only the first, for every caller thread, whatever was converted, warned about, interrupted or suppressed earlier - and if the application turns that warning into an error the conversion raises it and leaves no effect. Conversions that lose no dimension never emit it.",
  ["histories","schedules","configurations"],"every history of conversions before the call, every interleaving of callers, warnings shown, suppressed or turned into errors",
  "Tests check the warning once per conversion under the runner's own warning filters; 'once only' or cross-thread suppression looks the same to them.",
  [vec+"transform/d1.py",vec+"transform/d2.py",vec+"transform/d3.py",vec+"exceptions.py"],
  [("the conversion function itself warns on each call",vec+"transform/d3.py")],
  ["warnings attributed to each call"]),
P("C09","Objects survive copying, serialisation, crash and restart unchanged",
  "A vector, phase-space point, distance, angle, operator or frame that is copied, deep-copied, pickled (any protocol), rebuilt from its flattened leaves or rebuilt from its fields (a phase-space point: from its parts) is an equal object: same class, components, values, units, shapes, dtypes and parameters. A stored object is restored in a fresh process - after the writer crashed, in any history, import order or hash seed, restored repeatedly or by several threads - and every operation on it gives the result the original gave.",
  ["crash_points","histories"],"every kind of object, serialisation form, writer history, crash point of the writer and reader history",
  "The tests hardly copy or pickle anything, and never read back in another process.",
  [vec+"base/base.py",vec+"d4/spacetime.py",vec+"space/core.py",S+"operators/base.py",S+"operators/pipe.py",S+"frames/base.py",S+"frames/xfm.py",S+"distances/core.py",S+"angles/core.py"],
  [("objects are plain data classes of arrays registered as pytrees",vec+"base/base.py")],
  ["digest of restored object and of operations on it, in the reading process"]),
P("C10","Importing is order-independent, complete and survives load failures",
  "The public modules can be imported in any order, by several threads importing the package at once, and inside a function that JAX is tracing, always giving the same complete library. If loading one of its modules fails with an I/O error or an interrupt before that module has started to execute, the import reports the error, leaves no import hook behind, and a later import in the same process gives a library that behaves as one imported without the fault.",
  ["fault_sequences","schedules","crash_points"],"every order of public imports, every interleaving of importing threads, every module whose load fails, any number of times",
  "The tests import everything once, before anything runs, with no failure.",
  ["src/coordinax/__init__.py","src/coordinax/setup_package.py","src/coordinax/vecs.py","src/coordinax/ops.py","src/coordinax/frames.py","src/coordinax/angle.py","src/coordinax/distance.py","src/coordinax/_interop/__init__.py","src/coordinax/_interop/optional_deps.py","src/coordinax/_coordinax_space_frames/__init__.py"],
  [("import hook context manager around the imports; optional interoperability loaded last","src/coordinax/__init__.py")],
  ["public names, registered conversions and smoke operations after the import; import hooks"]),
P("C11","User extensions take effect at once and disturb nothing else",
  "A user may at any time define a new vector class, register a conversion to or from it, a new operator, or a new frame with transformations: from then on, and however often the same request was attempted and failed before, the extension works in every thread. No extension changes the outcome of any call that does not involve its types, and a definition abandoned by an error leaves no effect.",
  ["histories","schedules","fault_sequences"],"every point of a session at which extensions are added, or fail to be added, and every interleaving with ongoing calls",
  "The tests exercise only the built-in types, registered before the first call.",
  [S+"vectors/api.py",vec+"base/base_pos.py",vec+"base/base_vel.py",vec+"base/base_acc.py",S+"frames/api.py",S+"operators/api.py",S+"operators/base.py"],
  [("open multiple dispatch with caches invalidated on registration",S+"vectors/api.py")],
  ["outcomes of calls on extension types, and of unrelated calls, compared with a process without the extension"]),
P("C12","Long sessions do not accumulate memory",
  "Once its result is dropped, a call keeps nothing alive that depends on the values it was given: no argument, result or intermediate array stays reachable through the library, and repeating any operation with new values of the same types, units and shapes any number of times leaves the number of live arrays and of objects the library itself holds unchanged. This holds as well when calls fail or are interrupted.",
  ["histories","crash_points"],"every length and mix of operation sequences, including failing and interrupted operations",
  "No test looks at what stays alive after a call.",
  [vec+"base/base.py",vec+"transform/velocities.py",vec+"transform/accelerations.py",S+"operators/pipe.py","src/coordinax/_coordinax_space_frames/frame_transforms.py",S+"operators/galilean/rotation.py"],
  [("no value-keyed caches; module state is written at import only",vec+"transform/accelerations.py")],
  ["weak references to arguments and results; live-array and object counts over the history"]),
P("C13","Every call finishes: no schedule or interruption can block later calls",
  "Under every interleaving of caller threads, re-entrant calls from handlers, and interruptions, each call runs to completion in a number of library steps comparable to when it runs alone, once the scheduler keeps letting its thread run. No call waits for a thread that was interrupted, terminated or is itself waiting, and no retry loop can go on for ever.",
  ["schedules","fault_sequences"],"every interleaving, every thread stalled or killed at any point, re-entrant calls at any point",
  "Single-threaded, uninterrupted tests cannot deadlock.",
  [vec+"base/base.py",S+"operators/pipe.py",S+"operators/base.py","src/coordinax/__init__.py"],
  [("no locks, waits or retry loops in the library","src/coordinax/__init__.py")],
  ["completion of every call within a step budget relative to its solo run"]),
P("C14","Results do not depend on the environment the process was started in",
  "The outcome of every call is the same whatever the hash seed, whether Python assertions are enabled, whether the optional run-time type checker is on or off (for well-typed calls), whatever the working directory, locale, time zone and clock, and regardless of which public module was imported first. Two replicas started in different environments that run the same session agree step by step, bit for bit.",
  ["configurations","histories"],"every combination of start-up environment and session",
  "The test command fixes the hash seed, working directory and configuration; one environment is ever exercised.",
  ["src/coordinax/__init__.py","src/coordinax/setup_package.py",vec+"base/base_pos.py",vec+"base/base.py",vec+"checks.py",S+"operators/register_simplify.py"],
  [("ordered fields and dispatch by type; sets are used for membership only",vec+"base/base.py")],
  ["outcome digests of replicas started differently"]),
P("C15","Sessions with faults stay in step with a reference model",
  "In a session - values built, converted between representations, added, scaled, moved by operators (composed, inverted or simplified), taken from frame to frame or to Astropy and back, each step using results of earlier ones - every acknowledged result agrees, within floating-point tolerance, with an independent model of the geometry. This remains so when steps are interrupted and retried, caches are evicted, the process crashes and resumes from its stored objects, and other threads work on the same objects.",
  ["histories","fault_sequences","schedules"],"every session of chained operations, every placement of interruptions, evictions, crashes and competing callers",
  "Tests compare single steps against literal values for a few inputs; no test chains operations over stored and resumed objects or with faults in between.",
  [vec+"d1/transform.py",vec+"d2/transform.py",vec+"d3/transform.py",vec+"transform/d1.py",vec+"transform/d2.py",vec+"transform/d3.py",vec+"transform/velocities.py",S+"operators/galilean/rotation.py",S+"operators/galilean/boost.py",S+"operators/galilean/translation.py",S+"operators/pipe.py","src/coordinax/_coordinax_space_frames/frame_transforms.py",vec+"space/core.py"],
  [("conversions, operators and frame maps as pure functions of stored components",vec+"d3/transform.py")],
  ["each step's components, against the model's"]),
]
NA=[
P("C20","Position conversions are mutually inverse and independent of the route",
  "For every valid position, converting to any other representation of the same dimension and back returns the position, and going through an intermediate representation gives the same result as going directly.",
  ["inputs"],"every valid position and pair (or triple) of representations","A few literal points per pair are tested.",[vec+"d3/transform.py",vec+"d2/transform.py",vec+"d1/transform.py"],[("closed-form conversions",vec+"d3/transform.py")]),
P("C21","Velocity conversion is the push-forward by the Jacobian",
  "A velocity converted to another representation at a position equals the derivative of the converted position along it, so speed is preserved and round trips are identities.",
  ["inputs"],"every valid position and velocity","Literal examples only.",[vec+"transform/velocities.py"],[("automatic differentiation of the position conversion",vec+"transform/velocities.py")]),
P("C22","Acceleration conversion transforms components consistently",
  "Accelerations converted between representations and back are unchanged, and transform linearly at a fixed position.",
  ["inputs"],"every valid position, velocity and acceleration","Literal examples only.",[vec+"transform/accelerations.py"],[("Jacobian of the position conversion",vec+"transform/accelerations.py")]),
P("C23","Operators invert, compose and simplify without changing their action",
  "Applying an operator then its inverse is the identity, a pipe acts as its parts in order, and simplifying an operator does not change its action on any vector.",
  ["inputs","programs"],"every operator, composition and vector","A few operators on one vector are tested.",[S+"operators/pipe.py",S+"operators/register_simplify.py",S+"operators/galilean/rotation.py"],[("closed-form inverses and rewrite rules",S+"operators/register_simplify.py")]),
P("C24","Frame transformations match the astronomical definition",
  "ICRS to Galactocentric and back agree with the standard definition for all frame parameters and are inverse to each other.",
  ["inputs"],"every position, velocity and frame parameter set","Compared with astropy for a handful of points.",["src/coordinax/_coordinax_space_frames/frame_transforms.py"],[("pipe of rotation, translation and boost","src/coordinax/_coordinax_space_frames/frame_transforms.py")]),
P("C25","Results are equivariant under change of units",
  "Expressing the inputs of any operation in other units of the same dimension yields an equal result.",
  ["inputs"],"every operation and choice of units","Fixed units in tests.",[vec+"base/base.py"],[("unit-aware arrays",vec+"base/base.py")]),
P("C26","Equality and hashing are consistent",
  "Equality of vectors is reflexive and symmetric, compares physical values, and equal representations compare equal.",
  ["inputs"],"every pair of vectors","Single examples.",[vec+"base/base.py",vec+"base/base_pos.py"],[("component-wise comparison",vec+"base/base.py")]),
P("C27","Vectors behave as arrays of vectors",
  "Indexing, reshaping, broadcasting, flattening and stacking a vector act on every component alike and commute with conversion.",
  ["inputs"],"every shape and index","Single shapes.",[vec+"base/base.py"],[("component-wise tree map",vec+"base/base.py")]),
P("C28","Distance, parallax and distance modulus are consistent",
  "Converting between distance, parallax and distance modulus round-trips and follows their definitions.",
  ["inputs"],"every positive distance","Single examples.",[S+"distances/core.py"],[("closed-form conversions",S+"distances/core.py")]),
P("C29","Conversion to and from astropy round-trips",
  "Objects converted to their astropy counterparts and back are equal.",
  ["inputs"],"every convertible object","Single examples.",["src/coordinax/_interop/coordinax_interop_astropy/converters.py","src/coordinax/_interop/coordinax_interop_astropy/constructors.py"],[("field-wise converters","src/coordinax/_interop/coordinax_interop_astropy/converters.py")]),
P("C30","Vector arithmetic obeys vector-space laws in Cartesian coordinates",
  "Addition, subtraction, negation and scaling of vectors obey the vector-space laws after conversion to Cartesian coordinates.",
  ["inputs"],"every pair of compatible vectors and scalars","Single examples.",[vec+"base/register_primitives.py",vec+"d3/cartesian.py"],[("conversion to Cartesian and component-wise arithmetic",vec+"base/base_pos.py")]),
P("C31","Four-vector intervals are boost-invariant and keep their signature",
  "The norm of a four-vector follows the Minkowski signature and its space part converts like a three-vector.",
  ["inputs"],"every four-vector","Single examples.",[vec+"d4/spacetime.py"],[("closed form",vec+"d4/spacetime.py")]),
]
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
with out.open("w") as f:
    for r in rows+NA: f.write(json.dumps(r)+"\n")
