"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

G='omtools/core/group.py'; V='omtools/core/variable.py'; GR='omtools/core/graph.py'
EO='omtools/core/explicit_output.py'; IO='omtools/core/implicit_output.py'; IC='omtools/comps/implicit_component.py'
COMPS='omtools/comps/'; STD='omtools/std/'

prop('C01', 'Components are placed in dependency order, independents first',
 "In every group of a model without cycles, each component is placed after all components that produce its inputs, so that one pass through the model, from any starting values, yields final values. Independent variables come before everything else in their group. Both hold however the unordered choices made while building (hash and set iteration order, memory addresses, history of the process) happen to be resolved and in whatever order the user wrote declarations.",
 ['schedules','programs'], "all expression programs (shared sub-expressions, indexed reads and writes, subsystems, several independents, unused expressions) x all resolutions of the unordered choices taken during the build",
 "Dependencies are kept in hash-ordered containers keyed by object identity, so each run of a test exercises one arbitrary resolution of the order; tests check values of about 60 fixed models, mostly through values that a wrong order can still produce after a warm start.",
 [GR, V, G, 'omtools/core/subsystem.py'],
 [('topological sort by in-degree', GR), ('indirect dependency removal', GR), ('indeps added as dependency of every node', G), ('critical-path branch sort', V)],
 ['order of subsystems vs. promoted connections of the built problem', 'values after one run from poisoned initial outputs'],
 [('dependencies/dependents', 'expression graph edges', V)])

prop('C02', 'The built model has exactly the declared interface',
 "A built model offers every registered or created output, every independent variable and every design variable under the declared name and shape, independent variables and iterated outputs at their declared initial value, whatever order they were declared, used and registered in and however unordered choices are resolved. Inputs needed by some registered output are exposed with their declared shape and default value, unless something in the model produces them. Expressions that no registered output needs contribute no input, output or computation.",
 ['schedules','programs'], "all programs and permutations of independent declarations (register before/after use, late registration of operands, unused expressions, unused independents) x resolutions of unordered choices",
 "Tests fix one declaration order per model and assert a few outputs; the set of names, design variables and absence of unused expressions is never asserted, nor under more than one hash order.",
 [G, V, 'omtools/core/indep.py', 'omtools/core/input.py', 'omtools/core/output.py', EO, 'omtools/utils/get_shape_val.py'],
 [('node registration and component construction', G), ('lazy naming through build closures', V), ('design variable flag', G)],
 ['promoted names, shapes and initial values of the set-up problem', 'design variables and responses', 'inputs left for automatic independents'])

prop('C03', 'Outputs equal the written expressions after any evaluation history',
 "After any sequence of operations on a live model (changing independent or input values, running, computing derivatives in either mode, numerically checking derivatives, evaluating other models in between), a run leaves every output equal to the value of its written expression at the current values. Earlier evaluations never influence later ones.",
 ['programs','histories'], "all programs over the documented operations and shapes x all finite driver histories (set, run, totals fwd/rev, check partials/totals, repeat)",
 "Each test sets a model up, runs it once at its declared values and reads outputs; none re-evaluates the same live model at a second point or after derivative evaluation.",
 [V, COMPS, STD],
 [('compute methods of the generated components', COMPS), ('component options captured at build', V)],
 ['output values after run_model', 'independent values unchanged by evaluation'],
 [('component options and instance attributes', 'must not accumulate state between evaluations', COMPS)])

prop('C04', 'Total derivatives are exact at the current point after any history',
 "After any run in any sequence of driver operations, total derivatives computed in forward and in reverse mode equal the exact derivatives of the written expressions at the current point. Values probed in between by numerical differentiation, other points or other modes never leak into them, and repeating the computation returns the same numbers.",
 ['programs','histories'], "all programs over the documented operations x histories interleaving points, modes, relinearisation and numerical differentiation",
 "Tests call check_partials once at a single point directly after the only run, so a partial that is constant, cached or depends on the previously evaluated point passes.",
 [COMPS, STD, V],
 [('compute_partials / declared constant partials of generated components', COMPS)],
 ['compute_totals in fwd and rev', 'check_partials/check_totals of the live problem'],
 [('values cached between compute and compute_partials', 'must belong to the current point', 'omtools/comps/scalar_extremum_comp.py, axiswise_max_comp.py, vectorized_pnorm_comp.py')])

prop('C05', 'Models living in one process are isolated from each other',
 "Creating, building, running, failing or discarding one model never changes the structure, values or derivatives of another model in the same process, however their constructions and evaluations interleave and however many expressions the process has created before. Automatically chosen names never collide within a model.",
 ['histories','schedules'], "all interleavings of construction and driver operations of several models in one process, and all positions of the process-wide expression counter",
 "Each test builds one model in a nearly fresh process; interleaved construction, long-lived processes and failed neighbours are never exercised.",
 [V, G, 'omtools/utils/gen_hex_name.py', COMPS],
 [('process-wide counter and generated names', V), ('per-group graph root', G)],
 ['values, derivatives and names of each model vs. its solo run'],
 [('global expression counter', 'process history', V)])

prop('C06', 'Models can be built and run concurrently from several threads',
 "When several threads of one process each build and evaluate their own model, every model has the same interface, values and derivatives as when it is built and evaluated alone, for every interleaving of the threads.",
 ['schedules'], "all interleavings, at bytecode granularity inside the library, of 2-4 threads each building and evaluating a model",
 "No test uses threads; a lost update needs a switch between two particular bytecodes.",
 [V, G, 'omtools/utils/gen_hex_name.py'],
 [('unique id allocation', V)],
 ['each thread\'s model vs. reference values', 'exceptions escaping a thread'],
 [('global expression counter', 'shared by all threads', V)])

prop('C07', 'Setting a model up again yields the same model',
 "Setting up the same model object again, any number of times and at any moment of its life, yields the same interface, initial values, outputs and derivatives as the first set-up, also for models with nested groups, inline child groups and implicit components. If the model's options were changed in between, the new set-up reflects the new options and nothing of the old model remains.",
 ['histories','programs'], "all programs x sequences of set-up, option change, run and derivative operations",
 "Every test calls setup exactly once per problem.",
 [G, V, IC],
 [('wrapped setup builds the graph each time it is called', G), ('wrapped setup of implicit components builds the inner problem', IC)],
 ['names, values, derivatives after each set-up'],
 [('expression graph held by the group', 'must be rebuilt for each set-up', G)])

prop('C08', 'Hierarchical models compute the same as the flat model',
 "A model split into nested groups (library groups, native OpenMDAO systems, inline child groups), where a subsystem's inputs are registered before it is added and its outputs declared as inputs after, computes the same values and derivatives as the same expressions in one flat group. Each subsystem runs after the producers of its inputs and before the consumers of its outputs, however unordered choices are resolved, and the names it is told to promote (and only those) are promoted.",
 ['schedules','programs','histories'], "all ways to partition a program into (nested) subsystems of either kind with promotes variants x resolutions of unordered choices x driver histories",
 "A handful of tests contain one or two subsystems and evaluate one hash order; position of the subsystem relative to unrelated expressions and multi-level nesting are not varied.",
 [G, 'omtools/core/subsystem.py', 'omtools/core/input.py', GR],
 [('subsystem depends on everything registered before it', G), ('inputs declared later depend on the most recent subsystem', G), ('inline child groups are built when the with block ends', G)],
 ['values, totals and subsystem order of the hierarchical problem vs. flat reference'])

prop('C09', 'Implicitly defined outputs satisfy their residuals after every solve',
 "Whenever evaluating a model with implicitly defined outputs completes and reports convergence, every such output makes its residual zero to solver tolerance at the current inputs; for bracketed definitions the output lies within the bracket and at a sign change of the residual. This holds for several outputs and residuals sharing inputs or coupled with each other, and whatever was evaluated, failed, truncated or interrupted before.",
 ['programs','histories','fault_sequences'], "all families of residual programs (scalar/vector, shared inputs, coupled outputs, subsystems inside residual, mixed brackets) x histories of points, truncated or failed solves and interruptions",
 "Tests solve three fixed residuals once from fixed starts.",
 [IC, IO, 'omtools/utils/replace_output_leaf_nodes.py', 'omtools/utils/collect_input_exprs.py'],
 [('inner problem evaluates residuals', IC), ('bisection over brackets', IC), ('graph surgery to make residual graphs free of the output', IO)],
 ['residual recomputed by an independent model at the reported outputs and inputs'],
 [('inner problem values', 'must be refreshed from the outer vectors before use', IC)])

prop('C10', 'Derivatives through implicit outputs are exact at the converged point',
 "After a converged evaluation, total derivatives of any output with respect to any independent variable through implicitly defined outputs equal those given by the implicit function theorem at the current point, in forward and reverse mode. They do not depend on which linear solution strategy the user chose, on previously evaluated points, failed solves or numerical probing.",
 ['programs','histories','fault_sequences'], "all residual programs (dense vector coupling, several outputs, shared inputs) x linear solver choice x driver histories",
 "No test computes total derivatives through an implicit component more than once or with different solvers.",
 [IC, IO],
 [('linearisation through inner total derivatives', IC), ('direct application of the inverse residual Jacobian', IC)],
 ['compute_totals fwd/rev vs. implicit function theorem on an independent model'],
 [('cached linearisation', 'must be that of the current point', IC)])

prop('C11', 'Cyclic definitions build and converge to their fixed point',
 "A model containing outputs defined in terms of themselves or of each other builds in finite time and, with an iterative solver that contracts, converges to the fixed point of the written definitions, from any earlier state of the model and starting the first iteration at the declared initial value. Feedback connections exist only among components taking part in a cycle, and expressions outside it are evaluated in dependency order, however unordered choices are resolved.",
 ['schedules','programs','histories'], "all programs with self-referential, mutual and nested cycles sharing sub-expressions x resolutions of unordered choices x driver histories including truncated solves",
 "Tests contain two fixed-point models whose graphs have a unique order of traversal and run them once.",
 [EO, 'omtools/utils/replace_output_leaf_nodes.py', GR, 'omtools/comps/pass_through_comp.py'],
 [('replacement of self references by inputs', 'omtools/utils/replace_output_leaf_nodes.py'), ('pass-through component closes the cycle', 'omtools/comps/pass_through_comp.py')],
 ['fixed-point residual by independent model', 'feedback connections vs. strongly connected components of the program'])

prop('C12', 'An interruption at any instant leaves the model usable',
 "If building, evaluating or differentiating a model is interrupted at any instant by an exception from outside (keyboard interrupt, memory exhaustion, a failing user component), repeating the operation afterwards - setting up again after an interrupted set-up, running again after an interrupted evaluation - yields exactly the correct values and derivatives. Other models in the process are unaffected.",
 ['crash_points','histories','programs'], "all instants (line granularity inside the library) during set-up, run, linearisation and derivative checks x programs incl. implicit ones x following histories",
 "No test injects an exception; each operation runs to completion.",
 [G, V, IC, COMPS],
 [('graph state rebuilt per set-up', G), ('components recompute everything from their inputs', COMPS), ('inner problem refreshed from outer vectors', IC)],
 ['values and derivatives after recovery vs. reference'])

prop('C13', 'Points outside an operation\'s domain are reported and recoverable',
 "Evaluating a model or its derivatives at a point outside the domain of some operation (division by zero, logarithm of a non-positive value, overflow, NaN input) never terminates the process: it raises an ordinary exception or yields non-finite values for exactly the outputs that depend on the offending value. After the values are changed back into the domain, values and derivatives are again exact.",
 ['inputs','histories','fault_sequences'], "all programs x domain-violating, non-finite and boundary values injected at any independent at any time of a history x floating point error policy",
 "Tests only evaluate inside the domain, at one point.",
 [COMPS, 'omtools/comps/arithmetic_comps/power_combination_comp.py'],
 [('numpy floating point semantics', COMPS), ('zero-division guard', 'omtools/comps/arithmetic_comps/power_combination_comp.py')],
 ['process exit', 'values of dependent and independent outputs at the bad point', 'values and derivatives after recovery'])

prop('C14', 'A rejected declaration leaves the model unchanged',
 "When a declaration is rejected with an exception and the user continues (mismatched shapes, out-of-range or overlapping indices, registering twice, defining an output twice or as itself, an input as output, invalid operand types or arguments), the model built afterwards is the one without the rejected declaration. An output left undefined is reported at set-up rather than silently computed.",
 ['histories','fault_sequences','programs'], "all programs with invalid declarations injected at any position of the construction sequence and caught by the user",
 "Tests assert that a declaration raises and stop there; none continues building the model.",
 [EO, G, V, IO, STD],
 [('argument validation before the graph is changed', EO+', '+G)],
 ['interface, values and derivatives of the model with rejected declarations vs. without'])

prop('C15', 'Building a model takes a number of steps polynomial in its size',
 "Building a model finishes within a number of execution steps bounded by a low-degree polynomial in the number of expressions, for every sharing structure of the expressions (deep chains, repeatedly reused sub-expressions, wide fans, many outputs) and every resolution of unordered choices.",
 ['programs','schedules'], "all sharing structures of expression graphs up to a few hundred expressions, incl. residual and cyclic definitions, x resolutions of unordered choices",
 "Test models have fewer than 20 expressions; exponential growth in shared sub-expressions is invisible there.",
 [V, G, GR, 'omtools/utils/replace_output_leaf_nodes.py', 'omtools/utils/collect_input_exprs.py', IO],
 [('graph traversals', V+', '+GR)],
 ['deterministic count of executed jumps and calls inside the library during set-up'])

prop('C16', 'Indexed assembly and extraction are independent of order and history',
 "An output assembled by indexed assignment holds each assigned expression at exactly the assigned positions, and each indexed read of an expression equals that part of it, independent of the order in which assignments, reads and registrations were written and of how unordered choices are resolved. Assignments whose positions overlap, repeat or lie out of range are rejected, in every order.",
 ['programs','schedules','histories'], "all partitions of 1-d and n-d index spaces into integer, slice and strided assignments in any order x reads with any keys x late registration of assigned expressions x driver histories",
 "Tests assemble five fixed partitions in ascending order and read each key once.",
 [EO, V, 'omtools/comps/indexed_pass_through_comp.py', 'omtools/comps/decompose_comp.py', 'omtools/utils/slice_to_list.py'],
 [('index bookkeeping and overlap check', EO), ('shared decomposition per indexed expression', V)],
 ['assembled values, extracted values and their derivatives vs. numpy indexing'])

prop('C17', 'Option dictionaries reflect exactly the accepted operations',
 "After any sequence of declarations, assignments, updates, removals and reads, an option dictionary reports exactly the declared names, with the last accepted or default value of each, and reading an undeclared option, or a required one that was never set, raises. A declaration or assignment that is rejected, or stopped anywhere by a failing user-supplied validator or an interruption, raises and leaves every option as it was; an update is its assignments in order, up to the first one rejected. A read-only dictionary accepts no value after its declarations, one dictionary never affects another, and printing changes nothing and names every option.",
 ['histories','fault_sequences'], "all operation sequences over several dictionaries and option names with all declaration kinds x validator failures and interruptions at any call or line",
 "No test covers the option dictionary at all.",
 ['omtools/utils/options_dictionary.py'],
 [('validation before assignment', 'omtools/utils/options_dictionary.py')],
 ['contents, membership, iteration, printing and read results vs. a small model'])

prop('C18', 'Generated example scripts do not depend on directory order, leftovers or crashes',
 "Generating the example scripts produces, for every example and error class of the example modules, exactly one script in the corresponding folder, which does what the class does and prints the variables it lists. The scripts have the same contents whatever order the directory is listed in, whatever files are already there, and also when an earlier generation crashed or failed anywhere, in the middle of a write or between two, and is simply repeated. A file that cannot be read or written is reported, not skipped. Source files and unrelated files are never modified.",
 ['schedules','crash_points','fault_sequences'], "all listing orders of the source directory, leftovers, crash points and I/O errors during generation, followed by a complete run",
 "The generator has no test; it runs once against the real directory when imported.",
 ['omtools/utils/generate_example_scripts.py'],
 [('each script is rewritten from scratch', 'omtools/utils/generate_example_scripts.py')],
 ['contents of a simulated file system after the last complete run'])

prop('C19', 'Operations reject operands of unsuitable type or shape',
 "Every operation raises when an operand is not an expression or its shape does not suit the operation, and infers the result shape numpy would give otherwise.",
 ['inputs'], "all operand types and shapes",
 "Tests sample one or two bad shapes per operation.",
 [STD, V], [('argument checks', STD)], ['exception or inferred shape'])

prop('C20', 'Unit conversion and name encoding are faithful',
 "Converting a value between compatible units and back returns the value, incompatible units are rejected, and distinct counters encode to distinct names that OpenMDAO accepts.",
 ['inputs'], "all unit strings and all counters",
 "No test covers them.",
 ['omtools/utils/units.py','omtools/utils/gen_hex_name.py'], [('positional encoding', 'omtools/utils/gen_hex_name.py')], ['returned values'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
