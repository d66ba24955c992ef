#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=False):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

INC, SRC = "include/symbolic/", "src/"

prop("C01", "A state is exactly the set of facts put into it",
     "After any sequence of inserting, removing and looking up facts, a state contains exactly the facts a mathematical set would, every operation reports truthfully whether it changed the state, and iterating forwards or backwards visits every fact exactly once. "
     "Two states with the same facts are equal, hash equally, print identically and are ordered the same way against other states, however they were reached; states with different facts are unequal and strictly ordered. "
     "Copies, moved-from-and-reassigned states and states built from a list or from text behave the same way.",
     ["histories", "inputs"], "all finite histories of insert/erase/contains/copy/move/iterate over any fact universe",
     "Tests touch states of a handful of facts once; growth, shrink-and-rehash, hash collisions and order-independence only show on long mixed histories.",
     [INC+"utils/hash_set.h", INC+"utils/unique_vector.h", INC+"state.h", SRC+"state.cc"],
     "A state is a private hash set of sorted vectors; the bucket count grows and shrinks with size and equality compares buckets, so it relies on the bucket count being a function of the contents.",
     [{"name": "State", "meaning": "set of propositions"}], ["State public API", "std::hash<State>", "operator<<"])

prop("C02", "A partial state tracks known-true and known-false facts consistently",
     "After any sequence of assertions and retractions, each fact in a partial state is known true, known false or unknown, never two of these at once, and the last assertion or retraction about a fact decides which. "
     "Each operation reports whether it changed nothing, made an unknown fact known, or flipped a known fact. "
     "Asking about an unknown fact signals 'unknown' (naming that fact) instead of answering, and the two directions of the query are exact opposites.",
     ["histories", "inputs"], "all finite histories of insert/erase/query over any fact universe",
     "No existing test exercises partial states at all.",
     [INC+"state.h", SRC+"state.cc"],
     "Two states, positive and negative, updated together; return codes add the two change flags.",
     [{"name": "PartialState", "meaning": "known-true and known-false sets"}], ["PartialState public API"])

prop("C03", "A combination iterator at position i always shows the i-th combination",
     "For any non-empty option lists, the generator reports as its size the product of the list lengths, and an iterator at position i shows the i-th combination in lexicographic order no matter by which sequence of forward, backward and random moves (including through the end positions) it got there. "
     "Reverse iteration, indexing, iterator comparison and distance agree with those positions, and looking up a combination returns the index at which it is found. "
     "Out-of-range checked access and lookups of foreign elements or of combinations of another length are rejected with an error, an empty option list is rejected on construction, and no options at all yield no combinations.",
     ["inputs", "histories"], "all option lists up to 2^31 combinations and all iterator movement histories",
     "The tests use one 4x5x3 generator and a few fixed movements; stale digits only appear for particular movement histories and list sizes.",
     [INC+"utils/combination_generator.h"],
     "Iterators cache the current combination and rewrite only digits that differ between old and new index.",
     None, ["iterator dereference after every movement", "at/operator[]/find/size"])

prop("C04", "Parameter enumeration yields exactly the type-correct argument tuples",
     "For any list of typed parameters, enumeration yields exactly the tuples whose i-th member is a constant or object whose type is the i-th parameter's type or one of its subtypes, each exactly once, and the empty tuple once when there are no parameters. "
     "If some parameter type has no objects there are no tuples. Each tuple is found at its position, and looking up any other tuple is rejected with an error. "
     "Copies, moved-to and assigned generators stay correct after the original is changed or destroyed.",
     ["inputs", "configurations", "histories"], "all type hierarchies, object sets, parameter lists and copy/move histories",
     "No existing test reaches typed enumeration (it needs a parsed domain).",
     [INC+"utils/parameter_generator.h", SRC+"utils/parameter_generator.cc", SRC+"pddl.cc", SRC+"object.cc"],
     "The generator owns copies of per-type object lists and points its base class at them; copies and moves must re-point.",
     None, ["iteration over ParameterGenerator", "Pddl::object_map"])

prop("C05", "Documented concurrent uses are free of data races",
     "Threads may iterate one shared combination or parameter generator at the same time, read one shared constant state or partial state at the same time, and use problems loaded (and type-checked) beforehand, one per thread, and every thread sees the results it would see alone. "
     "No such execution contains a data race.",
     ["schedules"], "all thread interleavings of concurrent reads / independent instances",
     "All existing tests are single threaded.",
     [INC+"utils/combination_generator.h", INC+"utils/hash_set.h", SRC+"action.cc", SRC+"formula.cc"],
     "Iterators carry all mutable state; generators and states have no mutable members; formula scratch buffers are per formula instance.",
     None, ["ThreadSanitizer reports", "per-thread result digests"])

prop("C06", "The state index is a bijection between facts and positions",
     "The index has exactly one position for every type-correct instance of every declared predicate, and converting position to fact and back, or fact to position and back, returns the original; a fact that is no such instance is rejected with an error. "
     "Converting a state to its bit vector and back yields the same state, with exactly the bits of its facts set. "
     "Results do not depend on whether lookups are cached, on earlier lookups, or on copying the index, and iterating over the index visits the facts in position order.",
     ["inputs", "histories", "configurations"], "all predicate signatures (including no parameters), object sets, states and lookup histories",
     "No existing test constructs an index.",
     [INC+"state.h", SRC+"state.cc", SRC+"predicate.cc"],
     "Cumulative predicate group sizes plus the combination generator's index within the group, with two lookup caches.",
     None, ["StateIndex public API"])

prop("C07", "Facts and calls survive the trip through text, and identity is by name",
     "Printing a fact or an action call and parsing the text gives back an equal value, whatever spacing is used between the arguments. "
     "Two facts are equal exactly when predicate name and argument names are equal, equal facts hash equally regardless of how or where they were constructed, and the ordering of facts and objects is a strict total order consistent with equality. "
     "The PDDL rendering of a fact lists the same name and arguments.",
     ["inputs"], "all predicate and object names, arities and construction routes",
     "Tests print nothing and compare no facts constructed by different routes.",
     [INC+"proposition.h", SRC+"proposition.cc", INC+"object.h", SRC+"object.cc", SRC+"action.cc"],
     "Hashes are precomputed from names; references, owned and parsed propositions must agree.",
     None, ["operator==/</hash/to_string/to_pddl/Parse*"])

prop("C08", "Conditions evaluate with first-order closed-world semantics",
     "A precondition or goal evaluated on a full state and arguments has the truth value first-order logic gives it, with absent facts false, '=' as object identity, type names as membership tests, quantifiers ranging over all constants and objects of the type or its subtypes, and inner variables shadowing outer ones. "
     "Evaluation does not modify the state and does not depend on earlier evaluations. "
     "The textual rendering of a condition is itself PDDL with the same meaning.",
     ["inputs", "programs", "histories"], "all condition trees (and/or/not/forall/exists/=/type tests), states and argument bindings",
     "The only upstream formula test is one pick(hook) precondition, and it is not built here.",
     [SRC+"formula.cc", INC+"formula.h"],
     "Conditions compile to closures which map action arguments to proposition arguments by parameter position.",
     None, ["Formula::operator()", "Formula::to_string", "Action::IsValid", "Pddl::IsGoalSatisfied"])

prop("C09", "Answers on partial states hold in every completion",
     "When a condition evaluated on a consistent partial state answers true or false, every full state that agrees with the known facts gives that same answer. "
     "When every fact is known, an answer is always given.",
     ["inputs", "programs"], "all condition trees, consistent partial states and completions",
     "No existing test evaluates a condition on a partial state.",
     [SRC+"formula.cc", INC+"formula.h", SRC+"state.cc"],
     "A second compiled closure per condition signals unknown facts by exception; negated facts are evaluated through a dedicated path.",
     None, ["Formula::operator()(PartialState)"])

prop("C10", "Applying an action gives exactly the PDDL successor state",
     "Applying an action to a state yields the state with the deleted facts removed and added facts inserted, for universally quantified and conditional effects too, and all other facts unchanged apart from derived facts and axiom consequences. "
     "All ways of applying an action (by call text, by action object, in place, as a sequence, as a triple check) give the same result and the same 'changed' report, and the input state is left untouched. "
     "On a partial state the same effects become known and the report distinguishes nothing new, newly known and flipped.",
     ["inputs", "programs", "histories"], "all effect trees, states and argument bindings",
     "One pick(hook) transition is tested upstream (not built here); quantified, conditional and overlapping effects never are.",
     [SRC+"action.cc", SRC+"pddl.cc"],
     "Effects compile to closures run in a fixed order on the successor under construction.",
     None, ["Action::Apply", "Pddl::NextState", "Pddl::ApplyActions", "Pddl::IsValidTuple"])

prop("C11", "Malformed or ill-typed action calls are rejected, never executed",
     "A call naming an unknown action, an unknown object, the wrong number of arguments or an argument of the wrong type is rejected with an error by every operation that accepts call text, and a well-formed call with arguments of the parameter types or their subtypes is accepted. "
     "No text, however malformed, causes undefined behaviour, and rejected calls leave the problem usable and unchanged.",
     ["inputs"], "all call strings and all operations accepting them",
     "Tests pass two well-formed calls and no malformed one.",
     [SRC+"action.cc", SRC+"object.cc", INC+"proposition.h", SRC+"pddl.cc"],
     "Calls are tokenised by hand, resolved by name, then arity- and type-checked.",
     None, ["exceptions from Action::Parse, NextState, ApplyActions, IsValidAction, IsValidTuple, IsValidPlan, Normalize*"])

prop("C12", "Listing valid actions is sound, complete and free of duplicates",
     "The actions listed as valid in a state are exactly the type-correct instances of declared actions whose preconditions hold there, each listed once and in declaration order; the per-action argument listing agrees with it. "
     "Every listed call is accepted and judged valid when passed back as text, and the text-based listings agree with the state-based ones.",
     ["inputs", "programs"], "all domains, states and actions (including actions with no parameters)",
     "No existing test lists actions.",
     [SRC+"pddl.cc", SRC+"utils/parameter_generator.cc"],
     "Enumerates parameter tuples per action and filters by precondition.",
     None, ["Pddl::ListValidActions", "Pddl::ListValidArguments"])

prop("C13", "Derived facts are exactly those their rules justify",
     "For derivation rules without recursion through negation, computing derived facts yields the state whose basic facts are unchanged and whose derived facts are exactly the least set justified by the rules, including when several rules define one predicate, and stale derived facts in the input are discarded. "
     "The computation is idempotent and terminates. "
     "States produced by applying actions carry exactly the derived facts of their basic facts.",
     ["inputs", "programs", "histories"], "all stratified rule sets and states",
     "No existing test has a derived predicate.",
     [SRC+"derived_predicate.cc", SRC+"pddl.cc", SRC+"planning/planner.cc"],
     "Rules are iterated to a fixpoint on the state.",
     None, ["Pddl::DerivedState", "Pddl::NextState", "Planner nodes"])

prop("C14", "Axiom closure satisfies every axiom, changes nothing else and is stable",
     "Closing a full or partial state under terminating axioms yields a state in which every axiom whose context holds has its consequence, whose changes are all justified by axioms, and which closing again leaves unchanged. "
     "The initial state of a loaded problem is closed unless the caller opts out, and applying an action's effects also applies the axioms those effects trigger. "
     "A partial state whose known facts contradict an axiom consequence is rejected with an error.",
     ["inputs", "programs"], "all terminating axiom sets, full and partial states and actions",
     "No existing test has an axiom.",
     [SRC+"axiom.cc", SRC+"pddl.cc", SRC+"action.cc"],
     "Axioms are actions re-applied until nothing changes; effects trigger axioms by matching the changed literal against axiom contexts.",
     None, ["Pddl::ConsistentState", "Pddl::initial_state", "Action::Apply"])

prop("C15", "State validity reports exactly axiom violations",
     "A full state is reported valid exactly when every axiom instance whose context holds in it already has its consequences in it. "
     "A partial state is reported invalid exactly when propagating known contexts through the axioms contradicts a known fact or an impossible '=' or type consequence; unknown facts are never held against it.",
     ["inputs", "programs"], "all axiom sets and full/partial states",
     "No existing test calls the validity checks.",
     [SRC+"axiom.cc", SRC+"pddl.cc"],
     "Applies each axiom to a scratch copy and looks at whether it changed or flipped anything.",
     None, ["Pddl::IsValidState", "Axiom::IsConsistent"])

prop("C16", "Plan and transition verdicts agree with step-by-step execution",
     "An action sequence is accepted as a plan exactly when each action's preconditions hold in the state produced by its predecessors from the initial state and the goal holds at the end. "
     "A (state, action, next state) triple is accepted exactly when the action is applicable and produces precisely that next state. "
     "Goal and validity queries give the same answer for a state and for the set of texts naming its facts.",
     ["inputs", "histories", "programs"], "all action sequences, triples and states",
     "No existing test validates a plan or a triple.",
     [SRC+"pddl.cc"],
     "Each verdict re-implements the step loop separately.",
     None, ["Pddl::IsValidPlan", "Pddl::IsValidTuple", "Pddl::IsGoalSatisfied", "Pddl::IsValidAction"])

prop("C17", "Normalised conditions are logically equivalent to the original",
     "The disjunctive normal form computed for a precondition or goal holds in a full state exactly when the condition does, where 'no result' means never and an empty disjunction means always, and each disjunct is free of contradictory facts. "
     "Negating a normal form gives the normal form of the negation. "
     "Redundant disjuncts subsumed by others do not appear twice and the result does not depend on evaluation history.",
     ["inputs", "programs"], "all condition trees, argument bindings and states",
     "No existing (built) test touches normal forms.",
     [SRC+"normal_form.cc", INC+"normal_form.h"],
     "Recursive DNF construction with conjoin/disjoin/negate/simplify; '=' and type literals are folded.",
     None, ["DisjunctiveFormula::Create/NormalizePreconditions/NormalizeGoal", "Negate"])

prop("C18", "Normalised effects describe the state an action produces",
     "For an action with unconditional, non-conflicting effects, the normalised postcondition is one conjunction listing exactly the facts made true and made false, so it holds in every successor state. "
     "For conditional effects it is equivalent to the implications from conditions to effects, read in one state; so every successor whose conditions the action leaves unaffected satisfies it. "
     "When axioms are requested, each conjunct is extended by exactly its axiom consequences, and the combined pre/post query agrees with the separate ones.",
     ["inputs", "programs"], "all actions, bindings and states",
     "No existing (built) test touches normal forms of effects.",
     [SRC+"normal_form.cc", INC+"normal_form.h"],
     "Builds the conjunction of signed effects over quantifier expansions; conditional effects become implications.",
     None, ["DisjunctiveFormula::NormalizePostconditions", "DisjunctiveFormula::NormalizeConditions"])

prop("C19", "Search-node children are exactly the new valid successors",
     "Expanding a search node yields one child for every valid action instance whose successor state differs from the node and all its ancestors, labelled with that action, carrying exactly that successor (with derived facts) and depth one greater. "
     "Actions are tried in declaration order and argument order, and expanding again or from a copy of the node gives the same children. "
     "Iterating the children backwards from the end yields the same children in reverse.",
     ["inputs", "programs", "histories"], "all domains, states and nodes at any depth",
     "No existing (built) test expands a node.",
     [SRC+"planning/planner.cc", INC+"planning/planner.h"],
     "An iterator over (action, argument tuple) pairs skips invalid instances and states in the shared ancestor cache.",
     None, ["Planner::Node iteration"])

prop("C20", "Searches return only real plans, all of them within the depth bound",
     "Every plan returned by breadth-first, depth-first or best-first search starts at the root, follows valid transitions without repeating a state, ends in the first goal state on its path and is no longer than the depth bound. "
     "Each search returns every such plan exactly once before reporting the end, and on a finite bounded problem it always ends. "
     "Breadth-first search returns plans in order of non-decreasing length and best-first search respects the supplied priority; a search reports no plan exactly when none exists within the bound.",
     ["inputs", "programs", "configurations"], "all problems, root states, depth bounds and priorities",
     "No existing (built) test runs a search.",
     [INC+"planning/breadth_first_search.h", INC+"planning/depth_first_search.h", INC+"planning/a_star.h", SRC+"planning/planner.cc"],
     "Header-only iterators over a queue/stack/priority queue of nodes with ancestor lists.",
     None, ["iteration over BreadthFirstSearch/DepthFirstSearch/AStar"])

prop("C21", "The command-line planner reports exactly the plans that exist",
     "For a valid domain and problem, the command-line planner terminates successfully and prints, shortest first, exactly the plans within the requested depth (default five), with the action and resulting state of each step, and the true number found. "
     "Verbose mode changes only diagnostics, and unusable arguments or unreadable files end in an error, not in a plan.",
     ["inputs", "configurations"], "all problems and command lines",
     "The application is compiled but never run by the tests.",
     ["apps/pddl.cc", INC+"planning/breadth_first_search.h"],
     "Parses arguments, loads the problem, iterates breadth-first search and prints.",
     None, ["stdout and exit status of the built program"])

prop("C22", "Loading reproduces the specification, from file or text, per instance",
     "A loaded problem exposes exactly the declared types, constants, objects, predicates, actions, axioms, derived predicates, initial facts and goal of its specification, grouped by type including all supertypes. "
     "Giving the problem as text or as a file, with any trailing white space, loads the same problem, and a domain can be loaded without a problem. "
     "Any number of problems can be loaded, used and destroyed in any order without influencing each other, and unreadable or unparsable input is reported as an error.",
     ["inputs", "configurations", "histories"], "all domains/problems, input routes and instance lifetimes",
     "One fixed domain is loaded upstream (not built here).",
     [SRC+"pddl.cc", SRC+"object.cc", INC+"pddl.h"],
     "Global parser state is set per load; everything else is per instance.",
     None, ["Pddl constructors and accessors"])

prop("C23", "Adding or removing an object equals loading with or without it",
     "After adding an object of a declared type, or removing an object no fact or formula mentions, every query (objects by type, valid actions, quantified conditions, successor states, state index, searches) answers as a problem freshly loaded with the changed object list would. "
     "Adding and removing the same object restores all answers, and existing states and facts remain usable.",
     ["histories", "inputs"], "all histories of add/remove interleaved with queries",
     "No existing test modifies the object list.",
     [SRC+"pddl.cc", INC+"pddl.h"],
     "Mutates the parsed problem's symbol list and the object vector; object map, generators, formulas and actions hold cached copies.",
     None, ["Pddl::AddObject", "Pddl::RemoveObject", "all Pddl queries"])

prop("C24", "No API use on valid values causes memory errors or undefined behaviour",
     "Any sequence of public operations on validly constructed values, other than copying or moving the problem itself, runs without out-of-bounds access, use of freed memory, null dereference, integer or pointer misuse, or hitting an internal assertion. "
     "Misuse the library can recognise is reported by an exception. "
     "Values returned by the library (states, facts, formulas, actions, plans, generators, nodes) stay valid when the intermediate objects used to obtain them are destroyed, as long as the problem they came from is alive, and printing any of them always succeeds.",
     ["histories", "inputs"], "all API call sequences and lifetimes of intermediate values",
     "Tests run without sanitizers and keep everything alive.",
     [SRC+"pddl.cc", SRC+"action.cc", SRC+"predicate.cc", SRC+"planning/planner.cc", INC+"planning/planner.h", SRC+"axiom.cc"],
     "Values hold raw pointers to the parsed symbols and the owning problem; closures share heap buffers.",
     None, ["AddressSanitizer/UBSan reports", "assertion failures", "operator<< of every public type"])

prop("C25", "The Python problem builder writes what it was told",
     "The text produced by the Python problem builder is a well-formed PDDL problem with exactly the given name, domain, objects with their types, initial facts and goal, for any order of additions and any nesting of the formula helpers (and, or, not, forall, exists, when). "
     "Facts given in call notation or PDDL notation mean the same. "
     "The proposition-parsing helpers return exactly the head and arguments of any printed fact, including one without arguments, and reject text that is not a proposition.",
     ["inputs", "programs"], "all builder call histories and formula nestings",
     "The Python package is only parsed, never imported, by the tests.",
     ["symbolic/problem.py"],
     "Builds nested string lists and pretty prints them with indentation.",
     None, ["repr(Problem)", "parse_proposition/parse_head/parse_args"])

prop("C26", "The Python module answers as the library and keeps its values alive",
     "Every function, method and property of the Python extension module gives the value, or raises the exception, that the corresponding C++ operation gives for the same arguments, positional or by keyword; positions of the state index may also count from the end, and positions or vectors that do not fit it raise IndexError or ValueError. "
     "Iterating over a generator, a node or a search yields all its elements in order as independent values, also into a list or after a few steps by hand. "
     "A value or iterator obtained from the module stays usable and shows the same content for as long as Python holds it, whatever happens to the names of the problem, planner or node it came from, until the problem's objects are changed (objects keep their content even then). "
     "Pickling or copying a problem gives an independent problem loaded from the same domain and problem texts, and text written by the package's problem builder loads as the problem that was described.",
     ["inputs", "histories"], "all module calls, argument kinds and orders of object destruction",
     "No test imports the module, and lifetime mistakes show only when particular owners are destroyed first.",
     [SRC+"python/symbolic.cc", "symbolic/__init__.py"],
     "pybind11 bindings: overloads by text sets, return value policies, keep-alive relations, pickling.",
     None, ["Python calls into the module, held values, sanitizer reports"])

prop("C27", "Printed values show exactly their content",
     "The text printed for an object, type, predicate, action, derived predicate, axiom, fact, call, state, partial state, normal form or search node shows exactly its content: its name with all parameters or arguments in order, every fact it contains once and with its sign, each disjunct or conjunct separately, and for a node its depth, action and state. "
     "Equal states print the same text however they came about. "
     "The dump of a problem shows every declared type, constant, predicate, action with its complete condition and effect, object, initial fact and the goal, also after objects were added or removed. "
     "Printing succeeds for every such value, changes nothing, and gives the same text again.",
     ["inputs", "histories"], "all domains, problems, states and histories",
     "No test prints a value.",
     [SRC+"pddl.cc", SRC+"state.cc", SRC+"normal_form.cc", SRC+"predicate.cc", SRC+"action.cc", SRC+"axiom.cc", SRC+"planning/planner.cc"],
     "Stream operators walk the value or VAL's parse tree.",
     None, ["operator<< and to_string of every public type"])

prop("C28", "The set containers are sets, whatever their elements hash to",
     "After any sequence of insertions (copying, moving or through a compatible query type), removals (also of the container's own element), copies, moves and assignments, HashSet and UniqueVector contain exactly the elements a mathematical set would, report truthfully whether an operation changed them, and visit every element exactly once forwards and backwards (UniqueVector in ascending order), whatever the element type's hash function maps together. "
     "Two containers are equal if and only if they hold the same elements, and are strictly and transitively ordered otherwise, regardless of their histories.",
     ["histories", "inputs"], "all histories, element types and hash functions, also constant ones",
     "No test uses the containers directly; states hash too well to collide often.",
     [INC+"utils/hash_set.h", INC+"utils/unique_vector.h"],
     "Buckets are sorted unique vectors; the number of buckets follows the number of elements.",
     None, ["public API of HashSet and UniqueVector"])

prop("C29", "What a program no longer uses is given back",
     "Once the problems, states, nodes, searches, generators and other values of a program are destroyed, the memory they took is free again: a process that repeats the same program any number of times - loading domains and problems, also ones that are rejected, adding and removing objects, searching, evaluating - does not grow. "
     "Nor does a problem grow by being used: asking it, applying actions, searching and enumerating leave nothing behind when their results are gone. Memory that is filled once and reused does not count as growth.",
     ["histories", "inputs"], "all programs over the public API, repeated any number of times",
     "No test repeats anything or looks at the heap; cycles of owners and forgotten symbols make no test fail.",
     [SRC+"pddl.cc", SRC+"action.cc", SRC+"axiom.cc", SRC+"formula.cc", SRC+"planning/planner.cc", INC+"pddl.h", INC+"planning/planner.h"],
     "Problems own their symbols and axioms through shared pointers; the map from contexts to axioms refers to them weakly; nodes share the sets of their ancestors; formulas and effects are closures which own what they captured.",
     [{"name": "live heap", "meaning": "bytes and blocks allocated and not yet freed"}], ["allocator hooks of AddressSanitizer"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
