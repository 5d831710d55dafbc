"""Source of properties.jsonl: python3 tools/props.py rewrites it (and MANIFEST.json, from the checks that exist)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=pid, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe, hook_needed=None)))


N = "gpkit/nomials/"
C = "gpkit/constraints/"

prop("C01", "Nomial arithmetic computes the mathematical expression that was written",
     """Every expression built with + - * / ** and unary minus from variables, nomials, plain numbers (in either operand order) and pint quantities (as right operands)
     takes, at every point, the value of the mathematical expression written, with like terms combined and no vanished terms left over.
     The result's class is the tightest of Monomial, Posynomial, Signomial, and no operand is ever modified by being used.
     Undefined operations raise: a signomial result outside SignomialsEnabled, division by a polynomial, negative or fractional powers of polynomials, dimensionally inconsistent sums.""",
     ["inputs", "programs"], "all expression trees over the operators and operand kinds, all orders of operands",
     "The tests evaluate a few dozen hand-written expressions with printed forms; they do not combine operators, cancellation, operand order, units and aliasing of shared sub-expressions.",
     [N + "math.py", N + "map.py", "gpkit/small_classes.py"],
     [("Signomial.__add__/__mul__/__pow__ and reversed forms", N + "math.py"), ("HashVector arithmetic with zero removal", "gpkit/small_classes.py")],
     ["nomial.hmap / .cs / .exps / class", "raised exception"])

prop("C02", "Identical nomials are equal and hash equal however they were built",
     """Two nomials denoting the same function with the same units compare equal and have the same hash regardless of the order and route of operations that built them
     (sums, products, substitution, differentiation, unpickling), and nomials denoting different functions compare unequal.
     An equality between two monomials is a constraint whose truth value says exactly whether the two sides are identical.""",
     ["programs", "histories"], "all pairs of construction routes of the same and of different functions",
     "Tests compare a few literal pairs; hash consistency after in-place exponent edits (substitution, diff) depends on the path taken.",
     [N + "data.py", N + "core.py", N + "map.py", "gpkit/small_classes.py"],
     [("cached hash values updated in place", N + "map.py"), ("NomialData.__eq__", N + "data.py"), ("MonomialEquality.__bool__", N + "math.py")],
     ["==, !=, hash(), use as dict key, bool(constraint)"])

prop("C03", "Physical meaning is independent of the units chosen and of what ran before",
     """Re-expressing any variable, coefficient, constant or bound of an expression or constraint in other units of the same dimension leaves the described physical relation unchanged,
     whatever expressions and constraints were built, converted or discarded earlier in the process (a quantity compared with an expression being written on the right).
     Adding or comparing quantities of different dimensions raises DimensionalityError, in both operand orders and for numbers, quantities, monomials and posynomials alike.""",
     ["inputs", "histories"], "all assignments of units to the operands and all histories of prior unit conversions",
     "Unit conversion factors are cached process-wide; tests start from a handful of cache histories and few unit pairs.",
     ["gpkit/units.py", N + "map.py", N + "math.py", "gpkit/keydict.py"],
     [("division / multiplication caches", "gpkit/units.py"), ("NomialMap.to, units_of_product", N + "map.py"), ("clean_value", "gpkit/keydict.py")],
     ["nomial.to(), converted coefficients, compiled constraints, solution values", "raised DimensionalityError"],
     [("division_cache", "conversion factors remembered between calls", "gpkit/units.py")])

prop("C04", "Substitution evaluates exactly the named variables and nothing else",
     """Substituting values into a nomial or array gives the same function with exactly the named variables fixed, whichever spelling names them (name, variable, key, whole vector, element)
     and whether values are numbers, quantities or fixed nomials, with quantities converted to the variable's units.
     Substituting in steps or at once agrees, terms that merge or vanish are combined, zero and negative values behave arithmetically, and the original nomial and the substitution mapping are unchanged.
     Values of the wrong shape or dimension are refused; names that do not occur change nothing.""",
     ["inputs", "programs", "histories"], "all nomials, key spellings, value kinds and substitution orders within bounds",
     "Tests try particular keys and values one at a time; merging terms, repeated keys, vectors with gaps and stepwise substitution are combinations.",
     [N + "map.py", N + "substitution.py", N + "math.py", "gpkit/keydict.py"],
     [("NomialMap.sub / subinplace", N + "map.py"), ("parse_subs / append_sub", N + "substitution.py")],
     ["nomial.sub(...), .value, array.sub(...)"])

prop("C05", "Derivatives are exact and monomial approximations touch from below",
     """The derivative of a nomial with respect to a variable is exactly its partial derivative, with units of nomial per variable.
     The monomial approximation of a posynomial at a positive point equals it there in value and in every partial derivative and nowhere exceeds it;
     the split of a signomial into positive and negative parts and the list of its terms each add back to the signomial.""",
     ["inputs"], "all nomials over the term alphabet, all expansion points of the grid, all evaluation points",
     "Tests check a few derivatives and approximations by value; tangency and lower bounding are statements about all points.",
     [N + "math.py", N + "map.py"], [("Signomial.diff / mono_approximation / posy_negy / chop", N + "math.py"), ("NomialMap.diff", N + "map.py")],
     ["nomial.diff(v), .mono_approximation(x0), .mono_lower_bound(x0), .posy_negy(), .chop()"])

prop("C06", "A compiled constraint allows exactly the points the written one allows",
     """For every written constraint (<=, >=, ==, with constants on either side, in any units) and every set of substituted constants, the set of free-variable points allowed by the compiled program equals the set allowed by the written inequality or equation.
     A constraint that becomes always true contributes nothing; one that becomes impossible by more than the stated tolerance raises PrimalInfeasible; one that is no longer a posynomial inequality after substitution raises InvalidGPConstraint (a greater-than side that becomes zero or negative may be refused either way); nothing else is refused.
     Recompiling the same constraint with other substitutions does not depend on earlier compilations.""",
     ["inputs", "programs", "histories"], "all constraints over the term alphabet, all subsets and values of substituted variables, all sequences of recompilations",
     "Moving constants across the inequality, merging terms and detecting tautologies depend on the values substituted; tests use one or two values each.",
     [N + "math.py", N + "map.py", C + "set.py"],
     [("PosynomialInequality / MonomialEquality / SignomialInequality as_hmapslt1", N + "math.py"), ("constant folding", N + "math.py")],
     ["Model(...).gp() standard form, raised exceptions, localsolve vs solve"])

prop("C07", "Variables are identified by name, model, index and units and nothing else",
     """Two variables are the same key exactly when their name, model lineage, vector index and units (as written) agree; labels, values and other descriptions never matter, and equal keys hash equal, survive pickling, and are the same key in any container.
     Unnamed variables are always distinct, models of the same class get distinct numbers, and every variable can be looked up by each of its published spellings.""",
     ["inputs", "programs"], "all pairs of variable descriptions over the attribute alphabet",
     "Tests compare a few pairs; identity is a relation over all pairs of descriptions.",
     ["gpkit/varkey.py", N + "variables.py", "gpkit/globals.py"], [("VarKey.__eq__/__hash__/keys/__getstate__", "gpkit/varkey.py"), ("NamedVariables numbering", "gpkit/globals.py")],
     ["==, hash, dict/set membership, pickle round trip, lookup by name"])

prop("C08", "A KeyDict behaves as the mapping from variables to values it describes",
     """After any sequence of sets, deletes, updates and reads through any spelling of the keys (variable, key, vector, element, name, qualified name), a KeyDict returns for every key the value last stored for that variable or element, contains exactly the variables with a value, and raises KeyError for others.
     Whole vectors and their elements are views of one value; reading never changes the contents; quantities are converted to the key's units.""",
     ["histories"], "all operation sequences up to the depth over colliding keys and values",
     "The tests run single sequences; the lazily built name map, copy-on-write ownership and dtype changes only interact over longer histories.",
     ["gpkit/keydict.py"], [("KeyMap.parse_and_index / update_keymap", "gpkit/keydict.py"), ("KeyDict set/get/del", "gpkit/keydict.py")],
     ["kd[key], key in kd, del kd[key], kd.get, kd(key), iteration, len"],
     [("keymap / _unmapped_keys / owned", "spelling map, its pending keys, and arrays owned by this dict", "gpkit/keydict.py")])

prop("C09", "Copies of a KeyDict never write through to one another",
     """A KeyDict made from another, a model's substitutions taken from its parts, and a solution's variables, hold the same values at creation and are independent afterwards: no later set, delete, element write or read through one changes what the other returns or contains.""",
     ["histories"], "all interleavings of operations on a dictionary and its copies up to the depth",
     "Sharing shows only when a particular write follows a particular copy and read; tests copy once and read.",
     ["gpkit/keydict.py", C + "set.py", C + "gp.py"], [("KeyDict.update sharing + _copyonwrite", "gpkit/keydict.py")],
     ["values and key sets of every copy after each operation"])

prop("C10", "A model is the union of its parts: variables, constants, bounds and names",
     """However constraints are nested in lists, dictionaries, arrays, constraint sets and sub-models, a model constrains exactly the union of their constraints in order, over the union of their variables, with the constants of its parts, where a substitution given to an enclosing set overrides those given inside it.
     Looking a variable up by name returns that variable (or the whole vector), raises KeyError when absent and ValueError when ambiguous; invalid elements are refused; building a set does not change the constants its parts report.""",
     ["programs", "configurations"], "all nestings of the parts up to the depth, all placements of substitutions",
     "Tests build a few fixed nestings; precedence and lookup are properties of every tree.",
     [C + "set.py", C + "model.py", C + "costed.py"], [("ConstraintSet.__init__/_update/flatiter", C + "set.py"), ("__getitem__/variables_byname", C + "set.py")],
     ["model.vks, .varkeys, .substitutions, .flat(), model[name]"])

prop("C11", "The standard form handed to solvers is the model",
     """The coefficients, exponent matrix, term counts, term-to-constraint indices and equality markers passed to the solver function describe exactly the objective and constraints of the model after substitution, term by term, and the numbers returned are attributed to the same variables, terms and constraints.
     Every equality appears as its two marked directions; every free variable has exactly one column.""",
     ["programs", "configurations"], "all models over the constraint alphabet, constraint orders and substitutions",
     "Index bookkeeping errors cancel on small symmetric tests; only a comparison with an independent reading of the model decides it for all shapes.",
     [C + "gp.py", "gpkit/solvers/cvxopt.py"], [("GeometricProgram.gen", C + "gp.py"), ("MonoEqualityIndexes", C + "gp.py")],
     ["arguments received by a solver function", "result after a stub answer"])

prop("C12", "Unbounded variables are detected exactly",
     """A program is refused as unbounded exactly when some free variable lacks a bound in some direction, where inequalities and the objective bound a variable by the sign of its exponents and an equality bounds a variable once all the other variables in it are suitably bounded; exactly the missing (variable, direction) pairs are reported.
     The order in which constraints are listed never changes the verdict.""",
     ["programs"], "all models over the sign-pattern alphabet, including chains and cycles of equalities, and all constraint orders",
     "The rule is a least fixed point over equalities; tests contain a few short chains.",
     [C + "gp.py", C + "set.py", C + "bounded.py"], [("check_bounds / gen_meq_bounds / fulfill_meq_bounds", C + "gp.py"), ("add_meq_bounds", C + "set.py")],
     ["UnboundedGP raised, reported pairs, model.bounded"])

prop("C13", "solve() returns the optimum of the model and never a point that is not one",
     """For every geometric program that has a bounded set of optima within the solver's reach, solve returns a point satisfying every constraint as written and the given constants, with the least possible cost, and reports variables, constants, cost and units consistently with each other and with the expressions evaluated at it.
     For programs with no feasible point or no lower bound it raises rather than returning (at verbosity 0; otherwise a solve that fails quickly prints why and returns what Model.debug finds).""",
     ["inputs", "programs"], "all programs over the constraint alphabet and constant values",
     "Tests solve about twenty fixed programs and compare numbers; optimality and the consistency of every reported field hold or fail per program.",
     [C + "gp.py", C + "prog_factories.py", C + "model.py", "gpkit/solvers/cvxopt.py", "gpkit/solution_array.py"],
     [("progify/solvify", C + "prog_factories.py"), ("_compile_result", C + "gp.py"), ("optimize", "gpkit/solvers/cvxopt.py")],
     ["solution cost, variables, freevariables, constants; raised exceptions"])

prop("C14", "Reported sensitivities are the true log-derivatives of the optimal cost",
     """The sensitivity reported for each constant is the derivative of log optimal cost with respect to log of that constant, including constants that enter through several constraints, through the objective, through merged or folded terms, through vectors and through linked functions.
     The sensitivity of each constraint is the derivative of log cost with respect to relaxing it (or what remains of it once constants are folded in), zero for slack ones; together with the free variables they satisfy the optimality conditions of the model, and model totals add up their parts.""",
     ["inputs", "programs", "histories"], "all programs over the constraint alphabet where the optimum is regular, all constant assignments, and all orders of compiling and solving",
     "Tests compare a few sensitivities with hand computed numbers; term merging after substitution and constant folding produce many distinct paths.",
     [C + "gp.py", N + "math.py", N + "map.py"], [("sens_from_dual", N + "math.py"), ("mmap", N + "map.py"), ("_compile_result", C + "gp.py")],
     ["sol['sensitivities'] variables, constraints, cost, models"])

prop("C15", "Any answer or failure of a solver is reported faithfully and leaves no trace",
     """Whatever a solver function does (returns term duals or constraint duals, drops the objective's dual, returns wrong lengths or no duals, raises any of the documented infeasibility errors or an arbitrary one, prints), the caller gets the corresponding result or the documented exception class (at verbosity 0).
     An answer that violates primal or dual conditions beyond tolerance is flagged, one that satisfies them is not.
     Standard output is restored, the model's data is unchanged, and the next solve is unaffected.""",
     ["fault_sequences", "inputs"], "all solver answers of the alphabet, up to two in a row, at every solve of GP, SP and sweep runs",
     "Tests only ever see the installed solver succeed; failures and odd answers are never injected.",
     [C + "gp.py", C + "prog_factories.py", "gpkit/small_classes.py"], [("GeometricProgram.solve", C + "gp.py"), ("check_solution", C + "gp.py"), ("_generate_nula", C + "gp.py")],
     ["exception class, printed warnings, sys.stdout, later solves"])

prop("C16", "localsolve returns points of the signomial model itself",
     """A point returned by localsolve satisfies every constraint of the model as written (signomial ones included, up to the reported slack), is no more costly than the previous iterate, and for models whose local optimum is unique equals it unless it reports that it did not converge; slack bookkeeping variables do not appear in the result when no slack was needed.
     Models without signomials are refused by localsolve and models with them by solve, and a signomial objective is refused.""",
     ["inputs", "programs"], "all signomial programs over the alphabet, starting points and penalty settings",
     "Tests run a few signomial programs from default starts; conservativeness must hold at every iterate and start.",
     [C + "sgp.py", N + "math.py"], [("SequentialGeometricProgram.localsolve", C + "sgp.py"), ("as_gpconstr", N + "math.py")],
     ["solution of localsolve, program.results, raised exceptions"])

prop("C17", "Re-approximating a signomial program in place equals building it afresh",
     """For every sequence of expansion points, the geometric program obtained by updating a sequential program to the last point describes the same problem as approximating the original model at that point from scratch, whatever points it visited before. A starting point may be spelled as any substitution (names, variables, elements, vectors, quantities in any units) and is used as such by the first step.""",
     ["histories"], "all sequences of expansion points up to the depth, including points where terms merge or vanish",
     "The update edits sparse matrix entries in place and reuses freed ones; the number of terms per constraint must vary along the history to expose errors.",
     [C + "sgp.py"], [("SequentialGeometricProgram.gp", C + "sgp.py")],
     ["standard form given to the solver after each update"], [("a_idxs", "editable entries of the exponent matrix per constraint", C + "sgp.py")])

prop("C18", "A sweep is the collection of its pointwise solves and leaves the model as it was",
     """Sweeping one or several variables (including vector elements, linked functions and units) returns, for every point of the grid of swept values (the first swept variable, by name, varying fastest when there are two), what solving at that point alone returns, and nothing else; with failures skipped, exactly the failing points are absent, otherwise the sweep stops with an error.
     Constants are reported once and swept variables per point, and Model.sweep leaves the model's substitutions as they were, also when a solve fails.""",
     ["inputs", "fault_sequences"], "all sweep grids, orders and combinations of swept/linked/constant variables, and all subsets of failing points",
     "Tests sweep feasible grids once; failure positions and state restoration are not exercised.",
     [C + "prog_factories.py", C + "model.py", "gpkit/small_classes.py"], [("run_sweep", C + "prog_factories.py"), ("Model.sweep", C + "model.py"), ("DictOfLists", "gpkit/small_classes.py")],
     ["solution arrays, atindex, sweepvariables, constants, model.substitutions"])

prop("C19", "Autosweep brackets the true optimal cost to the requested tolerance",
     """For every swept range and tolerance, the lower and upper bounds reported by an autosweep enclose the true optimal log-cost at every sampled value, differ by at most twice the tolerance, and the reported cost lies between them; stored solutions are the exact solves at their points in order.
     The model's substitutions are as they were, also when a solve fails.""",
     ["inputs", "fault_sequences"], "all models of the alphabet, ranges, tolerances, sample points and failing solves",
     "Tests check two sweeps at a few points.",
     ["gpkit/tools/autosweep.py", C + "model.py"], [("BinarySweepTree / get_tol / recurse_splits", "gpkit/tools/autosweep.py")],
     ["sol['cost'], cost_lb(), cost_ub(), bst.sollist, model.substitutions"])

prop("C20", "SignomialsEnabled, Vectorize and NamedVariables nest and always restore",
     """In any nesting and sequence of with-blocks of these environments (objects used once or again, also within themselves) and of Model.setup calls, left normally or by an exception caught any number of levels out, each setting is exactly what the enclosing blocks say, and on leaving a block, exactly what it was on entering: whether signomials can be made, the shape of new variables, their lineage and numbering, and which variables belong to the model being set up.
     Library calls made inside them (solves, relaxations, bounds, debugging, sweeps, printing, also failing ones) behave as outside and leave every setting as it was; objects built earlier are unaffected.""",
     ["histories", "fault_sequences"], "all programs of nested and successive blocks up to the depth, each exit normal or exceptional, and all library calls inside every nesting",
     "Tests use each environment alone; restoration after nesting and exceptions is a property of histories.",
     ["gpkit/globals.py", C + "relax.py", C + "tight.py", C + "model.py"], [("SignomialsEnabled/Vectorize/NamedVariables __enter__/__exit__", "gpkit/globals.py")],
     ["whether a signomial is allowed, shapes of new variables, lineage of new variables"], [("_true, vectorization, lineage, modelnums", "process-wide environment state", "gpkit/globals.py")])

prop("C21", "A vectorized model is independent copies of the scalar model",
     """Building a model inside Vectorize gives variables with the vector dimension appended and constraints that hold elementwise, so that its solution, when the objective separates, is element by element the solution of the scalar model with that element's constants, and scalar and vector constants broadcast as documented.""",
     ["programs", "configurations"], "all models of the alphabet, vectorization shapes and nestings, and constant shapes",
     "Tests vectorize two models and check shapes.",
     ["gpkit/globals.py", N + "variables.py", N + "array.py"], [("Vectorize and ArrayVariable", N + "variables.py")],
     ["shapes and values of the vectorized solution"])

prop("C22", "Reading a solution never changes it and every view of it agrees",
     """Whatever sequence of reads is made of a solution (variables by name, vector or element, expressions evaluated at it, one point of a sweep, tables, summaries, comparisons, plot data), later reads return the same values, and every view of the same variable agrees in value and units with the stored solution.
     Evaluating an expression at a solution equals substituting the solution's values into it.""",
     ["histories"], "all sequences of read operations up to the depth on scalar, vector and swept solutions",
     "Tests read each solution once; in-place edits during reads only show in later reads.",
     ["gpkit/solution_array.py", "gpkit/small_classes.py"], [("SolutionArray.subinto/table/summary/diff/atindex", "gpkit/solution_array.py")],
     ["all accessors, before and after"])

prop("C23", "Saving a solution loses nothing and leaves it intact even if saving fails",
     """A saved and reloaded solution reports the same cost, variables, constants, sensitivities and tables as the original; exported csv, text and matlab data list the solution's values, to the precision of their format.
     After saving, whether it succeeded or failed at any point, the in-memory solution and the model's constraints are as before, and a solve afterwards works.""",
     ["crash_points", "inputs"], "all solutions of the alphabet, all export formats, and every write or pickling step failing",
     "Tests save once successfully.",
     ["gpkit/solution_array.py", "gpkit/varkey.py"], [("SolSavingEnvironment, pickle_prep, save, savecsv, savetxt, savemat", "gpkit/solution_array.py")],
     ["reloaded solution, files, in-memory solution after success and failure"])

prop("C24", "Relaxations are feasible, minimal, and exactly one when nothing needs relaxing",
     """Relaxing the constraints or constants of any model and minimizing the relaxation gives relaxation factors of one exactly when the model was feasible (and then the original optimum), and otherwise a point that satisfies each constraint loosened by its reported factor, with least total relaxation; excluded constants keep their values and reported warnings name exactly what was relaxed.
     The original model is unchanged by being relaxed or debugged.""",
     ["inputs", "programs"], "all models of the alphabet (feasible and not), nestings, inclusion lists and relaxation kinds",
     "Tests relax three models; nested models and equality constraints are not covered.",
     [C + "relax.py", C + "model.py"], [("ConstraintsRelaxedEqually / ConstraintsRelaxed / ConstantsRelaxed", C + "relax.py"), ("Model.debug", C + "model.py")],
     ["relaxvars, solution values, warnings, original model's substitutions and solve"])

prop("C25", "Diagnostics fire exactly when their condition holds",
     """A set declared tight warns exactly when some constraint is slack beyond its tolerance, one declared loose exactly when some constraint is more sensitive than its tolerance, and a bounded set reports exactly the variables that end near, or sensitive to, the arbitrary bounds; the diagnostics never change the solution.
     Every warning is kept with the solution and shown in its tables.""",
     ["inputs", "programs"], "all models of the alphabet and thresholds around the boundary",
     "Tests trigger each warning once.",
     [C + "tight.py", C + "loose.py", C + "bounded.py", "gpkit/small_scripts.py"], [("process_result of Tight/Loose/Bounded", C + "tight.py"), ("appendsolwarning", "gpkit/small_scripts.py")],
     ["sol['warnings'], sol['boundedness'], table"])

prop("C26", "Printed expressions, constraints and models mean what they denote",
     """The text of any expression, constraint or model, with any of the documented fields excluded, is available without error and, read back as mathematics, denotes the same function or relation up to the printed precision; printing changes nothing.""",
     ["programs"], "all expression trees over the operators up to the depth, scalar and array",
     "Tests compare a few literal strings; operator precedence and sign handling depend on the tree.",
     ["gpkit/repr_conventions.py", N + "core.py", N + "array.py", C + "single_equation.py"], [("parse_ast, parenthesize", "gpkit/repr_conventions.py"), ("str_without", N + "core.py")],
     ["str(), str_without(), latex()"])

prop("C27", "Docstring declarations and bound checks agree with the code they stand for",
     """A model whose variables are declared in its docstring has exactly the declared variables, values, units, labels and vector lengths, as if written out by hand; malformed lines are refused.
     A model class whose docstring lists its unbounded variables is accepted exactly when that list is sufficient and not excessive.""",
     ["inputs", "programs"], "all declaration blocks over the line alphabet, all bound declarations over the sign-pattern models",
     "Tests parse two docstrings.",
     ["gpkit/tools/docstring.py", C + "model.py"], [("parse_varstring / expected_unbounded", "gpkit/tools/docstring.py"), ("verify_docstring", C + "model.py")],
     ["variables created, ValueError raised"])

prop("C28", "Every solver back end is given the model's numbers and read back faithfully",
     """For every program, each back end (in-process cvxopt, the mosek command line tool, the mosek module, user functions) receives exactly the coefficients, exponents and constraint structure of the program and the options given, and each value in its answer is returned under the variable, constraint or constant it belongs to.
     Each documented status, exit code or error is reported as the documented exception, malformed answers raise instead of giving a solution, temporary files are removed and standard output is put back however the solver ends; settings files are read as written and choose the default back end.""",
     ["inputs", "fault_sequences"], "all programs of the alphabet, all statuses and malformed answers",
     "Tests can only use installed solvers, on success.",
     ["gpkit/solvers/cvxopt.py", "gpkit/solvers/mosek_cli.py", "gpkit/solvers/mosek_conif.py", C + "gp.py", "gpkit/globals.py"], [("optimize", "gpkit/solvers/cvxopt.py"), ("write_output_file / read_vals / optimize", "gpkit/solvers/mosek_cli.py")],
     ["recorded back-end calls and files, returned dict, exceptions"])

prop("C29", "Linked and evaluated variables always equal their functions",
     """A constant linked to others by a function takes, in every solve and at every sweep point, the value of that function of the current constants, scalar or vector, and its constants receive its sensitivities by the chain rule; a variable evaluated from the solution takes the value of its function of the solution.""",
     ["inputs", "histories"], "all linking functions, dependency shapes and substitution changes between solves",
     "Tests link a few functions once; stale values appear only after changes.",
     [C + "prog_factories.py", C + "set.py", C + "gp.py", N + "variables.py"], [("evaluate_linked", C + "prog_factories.py"), ("process_result evalfn", C + "set.py"), ("veclinkedfn", N + "variables.py")],
     ["solution constants, variables and sensitivities"])

prop("C30", "Array operations are the elementwise scalar operations",
     """Arithmetic, comparison, substitution, sums, products, outer and dot products, slicing and indexing of variable and nomial arrays give in every element what the same scalar operation on the corresponding elements gives, with numbers, scalars and arrays on either side and quantities on the right, and array constraints are the elementwise constraints.""",
     ["programs", "inputs"], "all operators, shapes, operand kinds and orders within bounds",
     "Tests cover a few operators on one shape.",
     [N + "array.py", N + "math.py", C + "array.py", C + "set.py"], [("NomialArray operators, sum, prod", N + "array.py"), ("ArrayConstraint", C + "array.py"), ("ConstraintSetView", C + "set.py")],
     ["elements of results, flattened constraints"])

prop("C31", "Taylor-expansion helpers return the true truncated series",
     """For every argument and number of terms, the exponential, secant and tangent helpers return exactly the truncated series of their function, with documented limits on terms refused.""",
     ["inputs"], "all numbers of terms up to the documented limits, monomial and posynomial arguments",
     "Tests check three values.",
     ["gpkit/tools/tools.py"], [("te_exp_minus1, te_secant, te_tangent", "gpkit/tools/tools.py")], ["coefficients of the result"])

prop("C32", "What a model solves to depends only on the model, not on its history",
     """Solving a model gives the same solution, sensitivities and warnings as a freshly built copy with the same current substitutions, whatever was done before with it or with other models sharing its variables or constraints: building programs without solving them, solving, failing, sweeping, debugging, printing, changing and restoring substitutions, in any order.
     The order in which constraints are listed and the names of variables do not change the optimum.""",
     ["histories"], "all sequences of operations up to the depth on two models sharing constraints",
     "State left on shared constraint objects or keys by one operation is only visible to another; tests use each model once.",
     [C + "model.py", C + "gp.py", N + "math.py", C + "prog_factories.py", C + "set.py"],
     [("per-solve data stored on constraints (pmap, const_mmap, dual accumulators, v_ss)", N + "math.py"), ("gradients stored on keys", C + "prog_factories.py")],
     ["solutions compared with a fresh model's"], [("pmap/const_mmap/_las/v_ss on constraints", "left between compile and solve", N + "math.py")])

prop("C33", "Plots, diagrams and sliders show exactly the solution's own numbers",
     """Sweep and autosweep plots, sweep grids and model comparisons draw each requested variable, expression or cost at each swept value (and the original solution where it was, autosweep costs as the band of their bounds), labelled with its name and units; convergence plots draw each iteration's cost.
     Sensitivity diagrams of the last solve link every constraint and constant with its sensitivity, each node passing on the sum of what it receives, and filters only leave links out; sliders cover the ranges asked for and each move shows the optimum at the sliders' values.
     Drawing changes neither the solution nor (sliders apart) the model's substitutions, also when a solve fails.""",
     ["inputs", "histories"], "all combinations of swept variables, plotted expressions, ways of calling, parts of models, filters, sequences of slider moves and failing solves",
     "No test exercises the interactive modules at all; figures are only looked at.",
     ["gpkit/interactive/plot_sweep.py", "gpkit/interactive/plotting.py", "gpkit/interactive/sankey.py", "gpkit/interactive/widgets.py", "gpkit/solution_array.py", "gpkit/tools/autosweep.py"],
     [("plot_1dsweepgrid, assign_axes", "gpkit/interactive/plot_sweep.py"), ("Sankey.link, linkfixed, _links_and_nodes", "gpkit/interactive/sankey.py"), ("modelinteract", "gpkit/interactive/widgets.py"), ("SolutionArray.plot, SolutionOracle.plot", "gpkit/solution_array.py")],
     ["data of the drawn lines and bands", "links and nodes of diagrams", "slider ranges and shown solutions"])

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        mod = os.path.join(V, "mc", "checks", p["id"].lower() + ".py")
        if os.path.exists(mod):
            src = open(mod).read()
            ns = {}
            for line in src.split("\n"):
                if line.startswith(("TECHNIQUE =", "NOTE =")):
                    exec(line, ns)
            checks.append(dict(property=p["id"], quick_cmd="./run.sh %s" % p["id"],
                               thorough_cmd="VERIF_TIER=thorough ./run.sh %s" % p["id"],
                               technique=ns["TECHNIQUE"], level="model_checking", level_note=ns["NOTE"]))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="All checks enumerate executions of the real code in /repo exhaustively within the bounds in DESIGN.md; no hooks are needed in /repo.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")
