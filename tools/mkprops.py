import json
N='ntl-extras/'
def P(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=[N+f for f in files],mechanism=[dict(name=a,where=N+b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=N+c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    return d
L=[
P("C01","Concurrent callers do not influence one another",
 "When several threads use the library at the same time, each with its own modulus and its own objects, every call returns exactly what the same call with the same random stream returns when it is made alone. This covers every public operation: polynomial, matrix, evaluation/interpolation, basis computation, linear solving and structured-matrix calls. No call crashes, hangs or changes another thread's modulus because of what other threads are doing.",
 ["schedules","inputs"],"every interleaving of the steps of up to four calling threads, every mix of operations and moduli",
 "The tests are single-threaded programs; any mutable state shared between calls (a cached table, a static temporary, a lazily built object) is invisible to them whatever inputs they use.",
 ["mat_lzz_pX_extra/src/","lzz_pX_CRT/src/","lzz_pX_middle_product/src/","structured_lzz_p/src/"],
 [("all temporaries are automatic or thread-local; the modulus is NTL's per-thread context","mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp"),("static tables are constant","lzz_pX_middle_product/src/lzz_pX_middle_product.cpp")],
 [("zz_p context","per-thread current modulus","lzz_p_extra/src/lzz_p_extra.cpp")],["outputs of every call","modulus and FFT mode after every call"]),
P("C02","Shared precomputed objects are safe for concurrent readers",
 "A precomputed object that has been built once (multipoint evaluator, remainder tree, Taylor shifter, structured matrix, left multiplier) can be read by several threads at once through its const operations (for a left multiplier: through multiply). Every reader gets the answer it would get alone, no reader modifies the object in a way another can see, and the object gives the same answers afterwards.",
 ["schedules","inputs"],"every interleaving of up to four readers of one shared object, every such object and modulus",
 "No test shares an object between threads; a const operation that secretly writes a cache passes any sequential test.",
 ["lzz_pX_CRT/lzz_pX_CRT.h","lzz_pX_extra/lzz_pX_extra.h","structured_lzz_p/structured_lzz_p.h","structured_lzz_pX/structured_lzz_pX.h","mat_lzz_pX_extra/mat_lzz_pX_multiply.h"],
 [("const operations only read the precomputed representations","lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp"),("const products of structured matrices","structured_lzz_p/src/toeplitz_lzz_p.cpp")],None,["outputs of const operations"]),
P("C03","The caller's modulus and FFT mode are left as they were",
 "After any public call returns, or leaves by an exception, the calling thread's current modulus, its FFT mode and the tables that belong to it are what they were before the call, even when the computation internally works modulo other primes. The objects passed as constant inputs are unchanged as well.",
 ["inputs","fault_sequences","configurations"],"every public operation, every kind of prime, every point at which an exception or failed allocation can leave the call, every choice of algorithm",
 "Tests install one modulus, make one call and compare one result; they do not look at the modulus afterwards and never take the exceptional exits.",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp","mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp","lzz_pX_CRT/src/lzz_pX_CRT.cpp","mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp"],
 [("zz_pPush restores the modulus in its destructor","mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp"),("multi-modular left multipliers","mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp")],None,["zz_p::modulus() and FFT data after each call"]),
P("C04","Randomised verifiers never reject a valid claim and reject invalid ones",
 "Verification routines that draw random values (for approximant bases, interpolant bases, kernel bases and determinants) accept every valid claim whatever values are drawn. With fair draws over a field of 60 bits they reject invalid claims: a wrong basis, a basis of the wrong module, a non-minimal or misshaped one, a wrong determinant.",
 ["inputs","fault_sequences"],"every valid claim and every sequence of random draws, adversarial ones included; every invalid claim with fair draws",
 "Tests run the verifiers with ordinary draws on the results of the library's own algorithms; one-sided error holds for all draws and the rejecting side is hardly exercised.",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp","mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp","mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp","mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp"],
 [("is_approximant_basis","mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp"),("is_interpolant_basis","mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp"),("is_kernel_basis","mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp"),("verify_determinant","mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp")],None,["verdict returned"]),
P("C05","Reported success, failure and metadata are true",
 "When a call reports success its result satisfies the defining equation, when it reports that there is no solution (or that the matrix is singular) there is none, and the degrees and pivots it reports are those of the result it returns. For algorithms that certify themselves this holds whatever random values were drawn; for Monte Carlo algorithms it holds with fair draws over a 60-bit field.",
 ["inputs","fault_sequences"],"every input and, for self-certifying algorithms, every sequence of random draws",
 "Tests feed generic inputs with ordinary draws: the rare draws on which a check is needed and the inputs without a solution are what they do not sample.",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp","mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp","mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp","structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp","structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp","structured_lzz_p/src/mosaic_hankel_lzz_p.cpp","lzz_pXY/src/lzz_pXY.cpp"],
 [("linsolve_via_kernel status","mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp"),("determinant_generic_* status","mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp"),("solve status of structured systems","structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp"),("shifted degrees reported with bases","mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp")],None,["status, result, reported degrees"]),
P("C06","Evaluation points are valid or their absence is reported, in bounded time",
 "Routines that choose evaluation points or elements of given order deliver points that are pairwise distinct (and of the required order, avoiding the required values) whenever they return normally, for every field and every sequence of random draws. When the field has no such points, or the draws do not produce any, they report it loudly; they do not loop for ever once draws are fair and points exist.",
 ["inputs","fault_sequences","configurations"],"every prime, every number of points, every finite prefix of adversarial draws followed by fair draws",
 "Tests use large primes where any draw works; repeated, zero or low-order draws and nearly exhausted small fields do not occur.",
 ["lzz_pX_CRT/src/lzz_pX_Multipoint.cpp","lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp","lzz_p_extra/src/lzz_p_extra.cpp"],
 [("element_of_order","lzz_p_extra/src/lzz_p_extra.cpp"),("get_geometric_points / get_FFT_points / get_general_points","lzz_pX_CRT/src/lzz_pX_Multipoint.cpp")],None,["points returned","steps taken"]),
P("C07","Tuning parameters and algorithm choice never change a result",
 "The result of an operation is the same, and equals the mathematically defined one, whichever algorithm is selected: for all values of the tuning thresholds, on both sides of every size, degree and prime-size boundary at which another algorithm takes over, for FFT and non-FFT primes. Explicitly selected variants of one operation agree with one another.",
 ["inputs","configurations"],"every assignment of the tuning thresholds, every shape, degree and kind of prime",
 "Tests run at the compiled-in thresholds with few sizes, so most (algorithm, size, prime) combinations are never executed and switches between algorithms are not crossed.",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp","mat_lzz_pX_extra/src/thresholds_matrix_multiply.h","mat_lzz_pX_extra/src/thresholds_matrix_middle_product.h","mat_lzz_pX_extra/src/thresholds_newton_inv_trunc.h","lzz_pX_CRT/src/thresholds_geometric.h","lzz_pX_middle_product/src/lzz_pX_middle_product.cpp","structured_lzz_p/src/","mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis.cpp"],
 [("dispatch in multiply, middle_product, inv_trunc, solve_series, mbasis/pmbasis","mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp"),("threshold tables","mat_lzz_pX_extra/src/thresholds_matrix_multiply.h")],None,["results of every variant"]),
P("C08","Results do not depend on memory contents, placement or the clock",
 "A call's result is a function of its arguments, the current modulus and the random stream: it does not depend on what freshly allocated or reused heap and stack memory happens to contain, on where objects are placed, or on the time of day. No call writes outside the objects it owns.",
 ["inputs","configurations","fault_sequences"],"every operation and input, every content of uninitialised memory, every placement policy of the allocator, every clock behaviour",
 "Tests see whatever the C library's allocator hands out, usually zeroed or benign memory, and cannot observe writes just past a buffer.",
 ["mat_lzz_pX_extra/src/","lzz_pX_CRT/src/","lzz_pX_middle_product/src/lzz_pX_middle_product.cpp","structured_lzz_p/src/","structured_lzz_pX/src/","lzz_pXY/src/lzz_pXY.cpp"],
 [("every buffer is sized and filled before it is read","mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp"),("plain long/double arrays for middle products","lzz_pX_middle_product/src/lzz_pX_middle_product.cpp")],None,["outputs","guard zones around every heap block"]),
P("C09","A failed allocation or refused call leaves the process usable",
 "When an allocation fails inside a call, the call leaves by an exception or the process ends loudly: it never returns a wrong result as if nothing had happened. A call the library refuses for its arguments (operands of incompatible dimensions, a degree beyond what an object was prepared for, a matrix that is not square or not invertible where an inverse is asked) stops with an error: it returns no made-up result and reads or writes nothing out of bounds. After an exception (from a failed allocation or from a call refused for its arguments) the caller's modulus and the constant inputs are intact, no memory has been damaged, and repeating the call, or making any other, gives the right result.",
 ["fault_sequences","crash_points","inputs"],"every operation, every allocation of that operation as the failing one, every refused call, followed by further calls",
 "Allocations do not fail in tests and the exceptional exits are not taken.",
 ["mat_lzz_pX_extra/src/","lzz_pX_CRT/src/","structured_lzz_p/src/","mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp"],
 [("RAII containers and zz_pPush unwind on exceptions","mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp"),("std::invalid_argument / std::logic_error on wrong arguments","mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp")],None,["exception, modulus, inputs and later results"]),
P("C10","Exported objects read back unchanged, whatever the sink does",
 "What is written for a computer algebra system is a sequence of well-formed statements of that system, which refers only to names that the initialisation statements or the caller declare and reads back to exactly the object written. When the output sink fails, truncates or throws at any byte, what it accepted is a prefix of that text, the call does not disturb the object or the process, and once the sink works again later statements appear whole.",
 ["inputs","fault_sequences","histories"],"every object and session of writes, every byte at which the sink fails and every way of failing, followed by recovery",
 "The tests of the writers print to the terminal and compare nothing.",
 ["magma_output/src/magma_output.cpp","sage_output/src/sage_output.cpp"],
 [("magma_output / magma_assign / magma_init*","magma_output/src/magma_output.cpp"),("sage_output / sage_assign / sage_init*","sage_output/src/sage_output.cpp")],None,["bytes written to standard output"]),
P("C11","Results do not depend on the thread pool",
 "Every operation gives the same result for every size of the worker pool that the underlying number library uses, under every schedule of the workers, and also when it is itself called from inside a pool worker. It terminates without deadlock in all these settings.",
 ["schedules","configurations","inputs"],"every pool size up to four, every interleaving of the workers, calls from outside and from inside the pool",
 "Tests never set a pool size, so everything runs on one thread.",
 ["mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp","mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp","lzz_pX_CRT/src/lzz_pX_CRT.cpp","mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp"],
 [("matrix products over the field run on NTL's pool","mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp")],None,["outputs"]),
P("C12","Precomputed objects stay correct through any history of use",
 "Objects that carry precomputed data answer correctly after any sequence of operations on them: growing or repeated preparations for larger degrees, evaluations and interpolations in any order, copies and assignments (the copy keeps working when the original changes or disappears), reuse as destination, and use after the current modulus was switched away and back.",
 ["histories","inputs","configurations"],"every sequence of up to some tens of operations on one object and its copies, every modulus",
 "Tests build an object, use it once and drop it.",
 ["lzz_pX_CRT/src/","lzz_pX_extra/src/lzz_pX_extra.cpp","mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp","structured_lzz_p/src/","structured_lzz_pX/src/"],
 [("prepare_degree and cached FFT representations","lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp"),("left multipliers","mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp"),("structured matrices and their generators","structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp")],
 [("FFT_evaluate / FFT_interpolate tables","prepared transforms kept between calls","lzz_pX_CRT/lzz_pX_CRT.h")],["answers of the object after each step"]),
P("C13","Results do not depend on earlier calls, stale destinations or aliasing",
 "A call gives the same result whatever calls were made before it, whatever the destination object contained (any size, any values), and, where the destination may be one of the inputs, also when it is. Results are in normal form: no leading zero coefficients, residues in range, exact dimensions.",
 ["histories","inputs"],"every sequence of earlier calls, every previous content of the destinations, every permitted aliasing",
 "Tests use fresh destinations, distinct from the inputs, in a fixed order.",
 ["mat_lzz_pX_extra/src/","lzz_pX_extra/src/lzz_pX_extra.cpp","lzz_pX_CRT/src/","structured_lzz_p/src/","structured_lzz_pX/src/","lzz_pXY/src/lzz_pXY.cpp","vec_lzz_p_extra/src/vec_lzz_p_extra.cpp"],
 [("destinations are resized and cleared; aliased destinations go through a temporary","mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp"),("overloads documented to allow aliasing","mat_lzz_pX_extra/mat_lzz_pX_arith.h")],None,["outputs"]),
]
NA=[
("N01","Products, quotients, inverses and determinants are exact for every input","All arithmetic operations on polynomials, vectors and matrices of polynomials return the exact result over the prime field for every input of compatible dimensions."),
("N02","Computed bases are minimal bases of the right module","Every basis returned generates the module of all solutions and has the shifted reduced form that was asked for."),
("N03","Structured matrices represent the dense matrices they stand for","Displacement generators, products and solutions agree with those of the dense matrix for every input."),
("N04","Recurrences and resultants are the mathematically defined ones","Sequence, bivariate and resultant routines return the mathematically defined object for every input."),
("N05","The FLINT-based half of the library offers the same guarantees","Operations of the part of the library written against FLINT return the same results as their counterparts."),
]
for id,t,s in NA:
    L.append(P(id,t,s,["inputs"],"every input","Tests sample few inputs.",{"N01":["mat_lzz_pX_extra/src/"],"N02":["mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis.cpp"],"N03":["structured_lzz_p/src/"],"N04":["lzz_pX_seq/src/lzz_pX_seq.cpp"],"N05":["../flint-extras/"]}[id],[("direct computation, no environment involved","README" if id!="N05" else "../flint-extras/")]))
for x in L:
    x['anchors']['files']=[f.replace('ntl-extras/../','') for f in x['anchors']['files']]
    for m in x['anchors']['mechanism']: m['where']=m['where'].replace('ntl-extras/../','').replace('ntl-extras/README','ntl-extras/')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
lv="simulation over seeded runs; the deciding step is a seeded search, not an enumeration"
T={"C01":"deterministic simulation: seeded scheduler over real threads, per-access preemption and conflict-directed switches","C02":"deterministic simulation: seeded scheduler over readers of one shared object","C03":"deterministic simulation with injected allocation failures, refused calls and tuning faults","C04":"deterministic simulation with tampered random draws","C05":"deterministic simulation with tampered random draws, reference checks","C06":"deterministic simulation with tampered random draws and bounded-progress check","C07":"deterministic simulation with seeded tuning-threshold faults, reference checks","C08":"deterministic simulation with simulated heap, stack garbage, placement and clock faults","C09":"deterministic simulation with injected allocation failures and recovery checks","C10":"deterministic simulation with failing output sinks, read-back oracle","C11":"deterministic simulation: seeded scheduler over the number library's thread pool","C12":"deterministic simulation of seeded object histories against a reference model","C13":"deterministic simulation of seeded call histories with stale destinations and aliasing"}
M=dict(version=1,setup_cmd="python3 /verif/tools/build.py pc",hooks=dict(guard="PML_SIM",enable="no hook in /repo is needed: the simulator is linked around the unmodified sources (malloc, pthread, clock, random stream and stream buffers are replaced at link or run time; tuning tables are overlaid by the build in /verif/tools/build.py)",source_commits=[]),
 checks=[dict(property=i,quick_cmd="python3 /verif/check.py --property %s --tier quick"%i,thorough_cmd="python3 /verif/check.py --property %s --tier thorough"%i,technique=T[i],level="exploration",level_note=lv) for i in sorted(T)],
 not_applicable=[dict(property=i,reason=r) for i,r in [
 ("N01","pure function of its arguments: no schedule, clock, I/O, randomness or failing call it depends on, so simulated faults add nothing; the environment-dependent side (thresholds, memory, history, threads) is C01-C13"),
 ("N02","pure function of its arguments; the parts that depend on draws, thresholds or histories are C04, C05, C07, C13"),
 ("N03","pure function of its arguments; status reports under random draws are C05, object histories C12, sharing C02"),
 ("N04","pure function of its arguments; the Las Vegas and Monte Carlo reports are C05"),
 ("N05","FLINT is not installed in this sandbox, so that part cannot be compiled, let alone run in a simulator")]])
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
R={"default":"an execution is distinct when the hash of its schedule, per-call steps, draws, allocations, statuses and results differs from all others; runs whose plan could not be judged are not counted"}
json.dump(R,open('/verif/tools/rules.json','w'),indent=1)
