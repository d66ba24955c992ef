"""What each check builds and runs. n: cases per (quick, thorough) run."""

PROPS = {
    "C01": {
        "parts": [{"flavour": "asan", "srcs": ["p_c01.cc"], "n": (3000, 60000)},
                  {"flavour": "rel", "srcs": ["p_c01.cc"], "n": (0, 200000), "tiers": ("thorough",)}],
        "rule": "One case: 20-150 random operations on four states over a pool of 1-200 facts of a random domain "
                "(insert/erase by value, by reference, by text, through own elements, of facts from another load, "
                "ranges, lists, copy, move, swap), each report compared with std::set; full observation (iteration "
                "both ways, membership of the whole pool, text) at random points; order, equality and hash laws over "
                "families of related states rebuilt along other histories. Distinct: set of facts.",
        "need": {"single-fact operations": 50000, "comparisons with a close relative": 10000,
                 "moves of iterators": 100000},
    },
    "C02": {
        "parts": [{"flavour": "asan", "srcs": ["p_c02.cc"], "n": (4000, 80000)}],
        "rule": "One case: 20-120 random operations on three partial states over a pool of 1-80 facts (assert and "
                "retract by value, move, text, reference, own element, through the parts; copy, swap, rebuild), each "
                "report compared with a map fact -> true/false/unknown, all facts queried both ways at random points. "
                "Distinct: knowledge map.",
        "need": {"reports of a flip": 10000, "operations on a reference to the state's own fact": 5000,
                 "unknown answers": 10000},
    },
    "C03": {
        "parts": [
            {"flavour": "asan", "srcs": ["p_c03.cc"], "lib": False, "n": (40000, 1500000)},
        ],
        "rule": "One case: random option lists (0-4 lists of 0-7 elements, repeats included), const and non-const "
                "containers, original, copied or assigned generator; every eighth with up to 2^62 combinations; full passes in each direction, checked access, "
                "lookup, and four random walks (forward, const, reverse, const reverse) of 10-60 moves over "
                "++/--/+=/-=/+/-/[]/copy/compare visiting both end positions. Distinct: hash of (iterator kind, size, "
                "move log).",
        "need": {"moves": 100000, "visits to an end position": 1000, "generators beyond 2^31": 1000, "lookups of another length": 10000},
    },
    "C04": {
        "parts": [{"flavour": "asan", "srcs": ["p_c04.cc"], "n": (2500, 60000)}],
        "rule": "One case: a random type hierarchy (1-6 types, some without objects, sometimes untyped), the "
                "generators of all its actions and predicates, and 12 lists of 0-4 parameters mixed from all "
                "declarations; each enumerated both ways, indexed and searched (large ones by position), before "
                "and after its source is copied, moved, reassigned and destroyed. Distinct: (generator, parameter"
                " types, tuples).",
        "need": {"generators without parameters": 500, "generators with an empty type": 500, "tuples": 100000,
                 "lookups of wrong tuples": 50000},
    },
    "C05": {
        "parts": [{"flavour": "tsan", "srcs": ["p_c05.cc"], "n": (1500, 30000), "jobs": 4},
                  {"flavour": "rel", "srcs": ["p_c05.cc"], "n": (0, 60000), "jobs": 4, "tiers": ("thorough",)}],
        "rule": "One case: 2-8 threads released at once, with random yields, delays and sleeps between steps, "
                "that iterate one shared combination or parameter generator, read one shared state or partial "
                "state, or each use a problem of their own (successors, depth-first, best-first and timed "
                "breadth-first search, normal forms with axioms, negation, plans, tuples, wrong calls, additions "
                "and removals of objects); ThreadSanitizer watches all accesses and each thread's results are "
                "compared with those obtained alone afterwards. Distinct: interleaving of the threads' steps.",
        "need": {"steps": 300000, "thread switches": 30000, "runs with overlapping threads": 800, "shared state": 100,
                 "shared partial state": 80, "shared parameter generator": 200, "shared combination generator": 80,
                 "shared constant combination generator": 80, "one problem per thread": 200},
    },
    "C06": {
        "parts": [{"flavour": "asan", "srcs": ["p_c06.cc"], "n": (2500, 60000)}],
        "rule": "One case: the cached, uncached, copied, moved, assigned and the problem's own index of a random "
                "domain; all positions and random facts looked up in random order, random walks of its iterators "
                "(all operators), indices of more than 2^31 facts, states and bit vectors converted both ways. "
                "Distinct: (index kind, state).",
        "need": {"position round trips": 100000, "states round-tripped": 20000, "predicates without parameters": 300,
                 "predicates without instances": 300, "facts without position": 20000},
    },
    "C07": {
        "parts": [{"flavour": "asan", "srcs": ["p_c07.cc"], "n": (2500, 60000)}],
        "rule": "One case: up to 8 instances of each predicate of a random domain, each constructed in ten ways "
                "(text, respaced text, arguments, another load, reference, signed, reassigned) and compared, hashed, "
                "ordered and printed against all others; look-alike facts; all objects; calls of every action. "
                "Distinct: fact text.",
        "need": {"constructions": 100000, "pairs of facts": 100000, "calls parsed": 10000},
    },
    "C08": {
        "parts": [{"flavour": "asan", "srcs": ["p_c08.cc"], "n": (3000, 100000)}],
        "rule": "One case: a random typed domain; its goal and every precondition evaluated for up to 40 argument "
                "tuples on six states, twice in different orders, from the original and a copied formula, against a "
                "first-order evaluator; the rendering is parsed back and evaluated too. Distinct: (formula, "
                "arguments, state).",
        "need": {"true answers": 10000, "false answers": 10000},
    },
    "C10": {
        "parts": [{"flavour": "asan", "srcs": ["p_c10.cc"], "n": (2500, 60000)}],
        "rule": "One case: up to 12 argument tuples of every action of a random domain (nested universal and "
                "conditional effects, some with derivation rules) applied to five states through eight entry points, "
                "against delete-then-add semantics with conditions read in the old state; partial states with 20-100 "
                "percent of the facts known; sequences of 0-5 calls. Distinct: (call, state, effect).",
        "need": {"changing applications": 15000, "applications without change": 5000, "order-sensitive effects": 2000,
                 "partial: flipped": 2000, "partial: newly known": 2000, "partial: nothing new": 500, "sequences": 5000},
    },
    "C09": {
        "parts": [{"flavour": "asan", "srcs": ["p_c09.cc"], "n": (3000, 80000)}],
        "rule": "One case: goal and preconditions of a random domain on partial states with 0-100 percent of the facts "
                "known; each answer checked against all completions of the facts the condition depends on (up to 2^11, "
                "else 64 samples), repeated, through IsValid, after a full-state evaluation, and with more facts "
                "known. Distinct: (condition, arguments, partial state).",
        "need": {"answers with facts unknown": 1500, "complete states": 3000, "no answer, completions differ": 1000},
    },
    "C11": {
        "parts": [{"flavour": "asan", "srcs": ["p_c11.cc"], "n": (1500, 60000)}],
        "rule": "One case: a random domain (axioms, derivation rules, actions named like objects, predicates or types); "
                "up to 40 wrong calls and all right ones through ten operations that accept call text, also inside "
                "sequences and plans; 40 random or damaged texts through every reader of text; problem and state "
                "compared before and after. Distinct: texts per domain.",
        "need": {"accepted calls": 5000, "rejected: unknown action": 2000, "rejected: unknown object": 2000,
                 "rejected: missing argument": 2000, "rejected: too many arguments": 2000, "rejected: wrong type": 1000,
                 "rejected: axiom as action": 200, "rejected: derived predicate as action": 200,
                 "calls with arguments of subtypes": 500, "texts rejected": 20000, "texts accepted": 500,
                 "wrong calls after applicable ones": 3000, "domains normalised": 500},
    },
    "C12": {
        "parts": [{"flavour": "asan", "srcs": ["p_c12.cc"], "n": (2500, 60000)}],
        "rule": "One case: five states of a random domain with up to five actions; overall and per-action listings, by "
                "state and by text, against filtering the typed product by a first-order evaluator; every sixth "
                "type-correct call judged. Distinct: (state, listing).",
        "need": {"listed calls": 20000, "calls judged": 20000, "empty listings": 100},
    },
    "C13": {
        "parts": [{"flavour": "asan", "srcs": ["p_c13.cc"], "n": (1900, 100000)}],
        "rule": "One case: 1-3 derived predicates with 1-2 rules each (recursion, negation across strata, "
                "shuffled declaration order) on ten states with and without stale derived facts, against the "
                "stratified least model; successors and search nodes; every eleventh case a long chain or ring of"
                " rules. Distinct: (state, derived state).",
        "need": {"states with derived facts": 5000, "states with stale facts": 2500, "domains needing several strata": 60,
                 "rules sharing their predicate": 400, "successors": 20000, "steps changing only derived facts": 200,
                 "sequences": 5000, "plans reaching the goal": 500, "plans not reaching the goal": 500,
                 "domains with chains of rules": 120},
    },
    "C16": {
        "parts": [{"flavour": "asan", "srcs": ["p_c16.cc"], "n": (1500, 50000)}],
        "rule": "One case: 12 action sequences of length 0-5 (guided walks with 0-50 percent stray steps, goals often "
                "taken from a reachable state), judged as plans; all verdicts on six states by state and by text, with "
                "correct and one-fact-wrong successors. Distinct: (sequence, final state).",
        "need": {"accepted plans": 1000, "plans with an inapplicable step": 1000, "plans missing the goal": 1000,
                 "plans inapplicable but ending in the goal": 100, "wrong transitions": 10000},
    },
    "C14": {
        "parts": [{"flavour": "asan", "srcs": ["p_c14.cc"], "n": (6000, 60000)}],
        "rule": "One case: 1-3 axioms (signed contexts, repeated and free variables, quantified, '=' and type "
                "consequences) that are monotone; the initial state, five states and eight partial states closed, all "
                "axioms applied one by one, and up to six instances of every action applied with the axioms they "
                "trigger (compared when ten simulated orders agree). Distinct: state, partial state or (call, state).",
        "need": {"states changed by closing": 2000, "partial states changed by closing": 2000,
                 "partial states contradicting axioms": 1000, "applications triggering axioms": 3000,
                 "partial applications triggering axioms": 500, "initial states changed by axioms": 200},
    },
    "C15": {
        "parts": [{"flavour": "asan", "srcs": ["p_c15.cc"], "n": (2500, 60000)}],
        "rule": "One case: 0-3 monotone axioms, often with '=' and type consequences; random, closed and "
                "one-fact-from-closed states and 30 partial states (also with one consequence denied), judged as a "
                "whole and axiom by axiom. Distinct: state or partial state.",
        "need": {"valid states": 10000, "invalid states": 10000, "valid partial states": 10000,
                 "invalid partial states": 3000, "consequences denied, invalid": 2500},
    },
    "C17": {
        "parts": [{"flavour": "asan", "srcs": ["p_c17.cc"], "n": (8000, 60000)}],
        "rule": "One case: goal and preconditions of a random domain normalised for up to six argument tuples "
                "through all entry points; meaning compared in all assignments of the relevant facts (up to 2^6, "
                "2^10 in the thorough tier) or 50 sampled states; disjuncts consistent and irredundant; negation;"
                " from conjunctive form; equivalence under axioms in closed states. Distinct: (condition, "
                "arguments).",
        "need": {"several disjuncts": 1000, "negations": 5000, "conditions compared in all states": 5000, "never": 100,
                 "comparisons in axiom-closed states": 5000},
    },
    "C18": {
        "parts": [{"flavour": "asan", "srcs": ["p_c18.cc"], "n": (5000, 60000)}],
        "rule": "One case: effects of all actions of a random domain for up to eight argument tuples; unconditional "
                "effects compared literally, conditional ones as implications on sampled states and on successors; "
                "combined and axiom-extended queries compared with the separate ones and with the reference closure. "
                "Distinct: (call, effect).",
        "need": {"unconditional effects": 5000, "conditional effects": 2000, "successors": 20000,
                 "implications hold": 5000, "implications fail": 5000, "normal forms extended by axioms": 500},
    },
    "C19": {
        "parts": [{"flavour": "asan", "srcs": ["p_c19.cc"], "n": (3000, 60000)}],
        "rule": "One case: a walk of 1-6 expansions from the initial or a random state of a random domain "
                "(derived facts, axioms, no actions) or up to twice around a ring of places with short cuts; at "
                "each node the ordered children compared with the reference transition system, forwards, "
                "backwards, in a random walk, interleaved, from a copy; node laws. Distinct: (node, state, number"
                " of children).",
        "need": {"nodes expanded": 4000, "nodes with discarded successors": 1000, "successors equal to an ancestor": 500,
                 "nodes at depth 2 or more": 500, "successors equal to an ancestor at depth 5 or more": 200, "nodes without children": 200, "backward passes": 4000},
    },
    "C20": {
        "parts": [{"flavour": "asan", "srcs": ["p_c20.cc"], "n": (4000, 60000)}],
        "rule": "One case: a random domain, a ring of places with deep bounds or a random tree of "
                "poisoned-on-move nodes, depth bound 0-8; all bounded plans enumerated independently and compared"
                " with breadth-first (order, rerun, copied iterator, verbose, timeouts), depth-first and "
                "best-first search under five priorities. Distinct: (problem, bound, plans).",
        "need": {"planner: problems with plans": 300, "planner: problems without plan": 200, "tree: problems with plans": 500,
                 "planner: plans": 3000, "best-first runs": 3000},
    },
    "C21": {
        "parts": [{"flavour": "asan", "srcs": ["p_c21.cc"], "app": "apps/pddl.cc", "n": (2000, 40000)}],
        "rule": "One case: a random or structured problem written to files; the built program is run with and without "
                "--verbose and a random or default depth, its output parsed back into plans with their states and compared "
                "with all plans enumerated independently; two wrong uses (arguments, files) must end in an error without "
                "plans. Distinct: (command line, problem).",
        "need": {"runs": 900, "plans printed": 1000, "problems with plans": 100, "problems without plan": 100,
                 "problems with plans of several lengths": 40, "runs with the default depth": 80, "wrong uses": 900},
    },
    "C22": {
        "parts": [{"flavour": "asan", "srcs": ["p_c22.cc"], "n": (2000, 40000)}],
        "rule": "One case: 1-3 random domains; 4-10 steps that load one (text or file, respaced and commented, "
                "trailing white space, domain only), use or destroy an instance out of order, or attempt "
                "unloadable input (implications, contexts that are no literal); default arguments, silence unless"
                " verbose; every declaration, group, initial fact and the behaviour compared with the "
                "specification at load, later and at the end. Distinct: (specification, route).",
        "need": {"loads from text": 1000, "loads from files": 1000, "loads without problem": 400, "rejected input": 800,
                 "uses with several instances alive": 800},
    },
    "C23": {
        "parts": [{"flavour": "asan", "srcs": ["p_c23.cc"], "n": (1500, 40000)}],
        "rule": "One case: 1-5 additions and removals of objects (names reused with other types, sometimes only "
                "add and remove of the same object); after most of them every query - objects, groups, instances,"
                " state index, goal, valid actions, successors, derived and consistent states, children, normal "
                "forms, searches - at three states against a fresh load of the changed text, and everything held "
                "from before used again; also domains without a problem and problems without objects. Distinct: "
                "(problem, history).",
        "need": {"objects added": 1000, "objects removed": 500, "restored": 100, "comparisons with a fresh load": 1000,
                 "searches": 200, "normal forms": 1000},
    },
    "C24": {
        "parts": [{"flavour": "asan", "srcs": ["p_c24.cc"], "n": (1200, 40000)},
                  {"flavour": "rel", "srcs": ["p_c24.cc"], "n": (0, 60000), "tiers": ("thorough",)},
                  {"flavour": "vg", "srcs": ["p_c24.cc"], "n": (0, 400), "tiers": ("thorough",), "limit": 600,
                   "wrap": ["valgrind", "-q", "--error-exitcode=66", "--track-origins=no"]}],
        "rule": "One case: a program of 30-90 random operations over one or two problems alive at a time, with pools of "
                "held values of all 17 public kinds, made from temporaries that are destroyed, copied, moved and "
                "overwritten; everything printed again at random points. Distinct: problem.",
        "need": {"operations": 40000, "held formulas evaluated": 1500, "values held": 60000, "values destroyed": 20000, "prints": 80000,
                 "plans held": 200, "nodes expanded": 3000},
    },
    "C25": {
        "parts": [{"py": "p_c25.py", "n": (60000, 1500000)}],
        "technique": "runtime monitoring: random builder histories on the real Python module, every produced text read back "
                     "by an independent PDDL reader as online oracle",
        "note": "Held on every execution observed. The module is loaded from its file, without the compiled extension.",
        "rule": "One case: one or two interleaved builders given up to 25 objects, facts (both notations), goals (random "
                "nestings of the helpers to depth 4, or one string) and wrong facts, printed at random points and read back; "
                "every fourth case: printed, wrong and damaged facts through the parsing helpers. Distinct: text.",
        "need": {"texts read back": 15000, "facts in call notation": 10000, "facts in PDDL notation": 10000,
                 "goals given": 10000, "objects given": 10000, "facts without arguments": 5000, "texts rejected": 20000,
                 "wrong facts": 3000},
    },
    "C26": {
        "parts": [{"flavour": "asan", "srcs": ["p_c26.cc"], "repo_srcs": ["src/python/symbolic.cc"], "embed_python": True,
                   "n": (400, 20000), "limit": 10}],
        "technique": "runtime monitoring and sanitizers: the module's real source is built against a stand-in for pybind11 into "
                     "an embedded interpreter under ASan and UBSan; random sessions compare every call with the library's "
                     "(online oracle), and held values are observed again after what they came from is gone",
        "note": "Held on every execution observed. pybind11 is not installed, so a stand-in (pyshim/) implements the part of "
                "its interface the module uses; vectors travel as lists in place of numpy arrays.",
        "rule": "One case: a random problem loaded on both sides; 40-80 random steps over all operations of the module (right "
                "and wrong calls, positional and keyword arguments, values of a wrong kind, objects added and removed, "
                "pickling), each result or exception compared with the library's; values of all kinds held, also alone, and "
                "observed again after their problem's name is gone; iterations in every style; every fourth case, a problem "
                "built with the package's Problem and loaded. Distinct: (operation, result).",
        "need": {"calls compared": 50000, "calls that raise": 3000, "values held": 1200, "nodes expanded": 1200, "plans": 300,
                 "values that outlive their problem's name": 1200, "iterations that outlive their source's name": 400,
                 "copies": 400, "objects added or removed": 80, "axioms judged on partial states": 200, "normal forms": 800,
                 "problems built in Python and loaded": 40, "wrong uses": 400,
                 "searches ended by their timeout": 4},
    },
    "C27": {
        "parts": [{"flavour": "asan", "srcs": ["p_c27.cc"], "n": (2500, 60000)}],
        "rule": "One case: a random domain with axioms and derivation rules, with or without a problem; every declaration, "
                "facts and calls, conditions, complete and partial states of several histories, normal forms of both kinds, "
                "search nodes to depth 3 and the dump of the whole problem (also after changes of the objects) printed, read "
                "back by readers of its own and compared with the value or the specification. Distinct: state text.",
        "need": {"texts": 50000, "actions in dumps": 2000, "axioms read back": 200, "dumps after changes of the objects": 300,
                 "nodes below the root": 500, "domains without a problem": 50},
    },
    "C29": {
        "parts": [{"flavour": "asan", "srcs": ["p_c29.cc"], "n": (900, 20000)}],
        "rule": "One case: the same random program (C24's, with problems of its own, or a fixed problem in use, or loads and "
                "rejected loads) run three to eight times; the allocator's hooks count every block, and the live heap must "
                "stop growing. Distinct: (program, allocations).",
        "need": {"programs that gave everything back": 900, "problems in long use": 300, "whole programs": 200,
                 "loads": 50, "allocations": 20000000},
        "technique": "runtime monitoring: heap accounting with the allocator hooks of AddressSanitizer over repeated random programs",
    },
    "C28": {
        "parts": [{"flavour": "asan", "srcs": ["p_c28.cc"], "lib": False, "n": (16000, 400000)}],
        "rule": "One case: 10-120 random operations on three hash sets or unique vectors of integers, strings or elements "
                "whose hash has few values (insert by value, by move, through another type, of own elements; erase, "
                "drain, copy, move, swap, lists), each report and at random points all contents, iterators of both "
                "kinds in both directions and in random walks compared with std::set; equality and order laws over "
                "families built along other histories. Elements notice their use after being moved from. Distinct: "
                "contents.",
        "need": {"operations": 200000, "set of colliding elements": 1000, "set of integers": 500,
                 "removals of the set's own element": 10000, "operations through another type": 10000,
                 "moves of iterators": 100000},
    },
}

# The same workloads with freed addresses handed out again at once: what the library remembers by address meets other
# values there. (AddressSanitizer otherwise keeps freed memory aside for long.)
for _pid, _p in PROPS.items():
    _first = _p["parts"][0]
    if _first.get("flavour") == "asan" and _first.get("lib", True) and "app" not in _first:
        _share = {"C22": 2, "C23": 3, "C24": 3}.get(_pid, 5)
        _p["parts"].insert(1, dict(_first, reuse=True, n=tuple(n // _share for n in _first["n"])))
