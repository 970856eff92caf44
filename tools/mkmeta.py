"""Regenerates properties.jsonl and MANIFEST.json from one table: python tools/mkmeta.py."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = "deterministic simulation with fault injection"

PROPS: list[dict] = []
NOT_APPLICABLE: list[tuple[str, str]] = []


def prop(id, title, statement, over, text, tests, files, mechanism, note=None, observe=(), hook=None, na=None, how=""):
    PROPS.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": tests,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                "observe_at": list(observe),
                "hook_needed": hook,
            },
            "_note": note,
            "_how": how,
        }
    )
    if na:
        NOT_APPLICABLE.append((id, na))


prop(
    "C01",
    "Persistent memoisation never changes an answer",
    "A function memoised on disk returns, for every call, exactly what the undecorated function returns for"
    " those arguments, or raises an error that the function or the storage itself raised, whatever other"
    " processes and threads, evictions, storage errors, crashes and restarts do to the shared store. Errors are"
    " never stored, and calls that differ in store name, directory, or positional or keyword arguments never"
    " share an answer. Once an answer is stored (falsy answers included) every process is served the stored"
    " answer instead of computing it again, and what a caller does to an answer never changes later ones.",
    ["schedules", "crash_points", "fault_sequences", "histories", "inputs"],
    "every interleaving of processes and threads over one store, every sequence of evictions, storage errors,"
    " crashes and restarts, every function, key function and argument list",
    "The two unit tests decorate one function over a plain dict; memoisation is switched off under pytest, so no"
    " test ever meets a second process, an eviction between two look-ups, a storage error or a crash.",
    ["qldpc/cache.py"],
    [("use_disk_cache", "qldpc/cache.py"), ("get_disk_cache", "qldpc/cache.py")],
    observe=["return values of memoised functions", "number of invocations of the undecorated function"],
    how="thread",
)
prop(
    "C02",
    "External look-ups give the right answer or an error, never a wrong one",
    "Looking up group generators, the number of groups of an order, a group's structure, primitive central"
    " idempotents or a classical code by name returns exactly what GAP, GroupNames.org or the built-in table"
    " holds for that name, or raises an error; with every service healthy it does return the answer. A missing,"
    " killed or failing program, an unreachable or failing site, and a cut, reset or foreign reply never turn"
    " into a different answer; only without a usable GAP may a group's bare name stand in for its structure.",
    ["fault_sequences", "schedules", "histories", "inputs"],
    "every sequence of service failures at every call, every interleaving of look-ups, every group, order, code"
    " and field that the services know, and names that they do not know",
    "Tests mock the process and the page with one well-formed reply each; no test delivers a partial reply, an"
    " abnormal exit, a reset or a failure in the middle of a multi-call look-up.",
    ["qldpc/external/groups.py", "qldpc/external/codes.py", "qldpc/external/gap.py", "qldpc/abstract.py"],
    [
        ("get_output raises on a failing GAP", "qldpc/external/gap.py"),
        ("output parsers", "qldpc/external/groups.py"),
        ("output parser", "qldpc/external/codes.py"),
    ],
    observe=["return values and errors of look-ups"],
)
prop(
    "C03",
    "Failures and stand-ins are never remembered as answers",
    "Whatever failed or was degraded before (a service missing, a look-up that raised, a stand-in given without"
    " GAP), once faults stop every look-up gives the true answer in a newly started process, and also in a"
    " surviving process that always found GAP usable. No error, partial reply or stand-in is ever stored where a"
    " later look-up would take it for the answer.",
    ["fault_sequences", "crash_points", "histories", "schedules"],
    "every history of failing and degraded look-ups, crashes and restarts, followed by recovery",
    "Tests never run two look-ups against the same persistent store, and memoisation is off under pytest, so"
    " nothing a failure leaves behind can be seen by them.",
    ["qldpc/external/groups.py", "qldpc/external/gap.py", "qldpc/external/codes.py", "qldpc/cache.py"],
    [
        ("stand-in returned without storing it", "qldpc/external/groups.py"),
        ("errors leave no entry", "qldpc/cache.py"),
    ],
    observe=["answers after recovery"],
)
prop(
    "C04",
    "Known and stored answers need no service; sources have a fixed order",
    "A look-up whose name is in the built-in table, or whose answer has been stored, is answered without running"
    " GAP, asking the user or using the network, also when none of them works. Otherwise the built-in table comes"
    " before GAP, and GroupNames.org is used only when GAP is not usable. What a caller does to a returned answer"
    " never changes what any later look-up returns.",
    ["histories", "fault_sequences", "schedules", "configurations"],
    "every history of look-ups, every availability of GAP, network and packages over time",
    "Tests patch each source separately; none observes which services a sequence of look-ups contacts, nor"
    " modifies an answer and asks again.",
    ["qldpc/external/groups.py", "qldpc/external/codes.py", "qldpc/cache.py"],
    [("order of sources", "qldpc/external/groups.py"), ("KNOWN_GROUPS", "qldpc/external/groups.py")],
    observe=["calls of the subprocess, HTTP and input seams", "return values"],
)
prop(
    "C05",
    "GAP packages are installed only with consent; failures surface",
    "A look-up that needs a missing GAP package asks the user, installs it only after an affirmative answer, to a"
    " place from which GAP loads it, and then answers; after a refusal, a failed installation or a failed"
    " availability check it raises an error, installs and hides nothing, and a later look-up asks again. When the"
    " package is available nobody is asked and nothing is installed.",
    ["fault_sequences", "histories", "schedules", "inputs"],
    "every sequence of user answers and of GAP, git, network and prompt failures, over histories of look-ups",
    "The unit test checks one refusal and one failed installation with mocked outputs; success, retry after"
    " failure, silent failures and the installation place are never exercised.",
    ["qldpc/external/gap.py"],
    [("require_package", "qldpc/external/gap.py"), ("GAP_ROOT", "qldpc/external/gap.py")],
    observe=["calls of the input and git seams", "answers after installation"],
)

prop(
    "C06",
    "Seeded constructions are the same valid object in every process",
    "A random code, code word, logical operator, group element, symmetric subset or quantum Tanner code made from a"
    " seed, and a quantum Tanner code, linear group, quasi-cyclic or named code made from explicit data, is the same"
    " object in every process whatever its string-hash seed, whatever ran before or runs concurrently, and after an"
    " interrupted attempt. Every such draw finishes, and is valid: random codes have no zero row or column, words and"
    " logical operators satisfy the checks (nontrivially when asked), and symmetric subsets have the requested size,"
    " consist of group members, contain inverses, and leave out the identity when asked.",
    ["histories", "schedules", "configurations", "inputs", "crash_points"],
    "every seed from 0 to 2**32-1, every history of unrelated random draws, every interleaving of threads and point"
    " of interruption, every string-hash seed, all group and code families with feasible sizes",
    "Tests compare two draws in one quiet process with one hash seed; none compares two processes, re-draws after"
    " unrelated activity, or interleaves draws.",
    ["qldpc/abstract.py", "qldpc/codes/common.py", "qldpc/codes/quantum.py", "qldpc/codes/classical.py", "qldpc/objects.py"],
    [
        ("seeded random generators", "qldpc/abstract.py:Group.random"),
        ("get_scrambled_seed, get_random_array", "qldpc/codes/common.py"),
        ("ordered construction of subgraphs", "qldpc/codes/quantum.py:QTCode.get_subgraphs"),
        ("orbit representatives", "qldpc/abstract.py:ProjectiveSpecialLinearGroup"),
    ],
    observe=["parity check matrices, subsets, generators and lifts of constructed objects"],
)
prop(
    "C07",
    "Seeded draws leave the global random generators alone",
    "Making a random code, word, logical operator, group element, symmetric subset or quantum Tanner code from an"
    " explicit seed leaves the states of Python's, NumPy's and SymPy's global random generators as they were, also"
    " when the arguments are rejected or the call is interrupted. Code that draws from those generators in other"
    " threads meanwhile gets exactly the numbers that it would get alone.",
    ["schedules", "crash_points", "inputs"],
    "every interleaving of seeded draws with users of the global generators, every point of interruption",
    "Tests check neither generator states nor concurrent use.",
    ["qldpc/abstract.py", "qldpc/codes/common.py"],
    [("get_scrambled_seed", "qldpc/codes/common.py"), ("Group.random", "qldpc/abstract.py")],
    observe=["states of the global generators", "numbers drawn by other threads"],
)

prop(
    "C08",
    "Saved quantum Tanner codes load back as the same code, or are refused",
    "A quantum Tanner code that was saved loads back, in any process, as an equal code with the same parity checks,"
    " subsets, seed codes, field and bipartiteness, whatever headers were given; codes made from different data are"
    " unequal. After a save that failed, was interrupted or crashed midway, the file either is refused or loads as a"
    " code that was saved there, and a later save repairs it. A file that was cut short or partly zeroed is refused"
    " or loads as the same code, never as another one.",
    ["inputs", "crash_points", "fault_sequences", "histories", "configurations"],
    "every quantum Tanner code, header text and point of failure; sequences of saves and loads by several processes"
    " (loads that overlap an overwriting save of the same path excluded)",
    "The unit test saves one code into a StringIO and compares it with an equality test; no test uses files, damage,"
    " failures or a second process.",
    ["qldpc/codes/quantum.py"],
    [("save, load, __eq__", "qldpc/codes/quantum.py:QTCode")],
    observe=["loaded codes", "files"],
)
prop(
    "C09",
    "Interrupted and concurrent code searches end with complete and correct results",
    "However often the bivariate bicycle or quantum Tanner search crashes, fails, is interrupted, or runs in several"
    " processes at once, running it again to the end leaves exactly one correct result per job: parameters that match"
    " the code, and for quantum Tanner codes a file that holds the code its name says. A result that is incomplete"
    " is never taken for finished work, finished work is neither recomputed nor changed, and collecting and verifying"
    " the results yields exactly what the stored results say.",
    ["crash_points", "schedules", "fault_sequences", "histories"],
    "every sequence of sessions, crashes, interrupts and failures of store, files and GAP, every interleaving of"
    " worker processes",
    "The experiment scripts have no tests at all.",
    [
        "experiments/bivariate_bicycle/run_search.py",
        "experiments/quantum_tanner/run_randomized_search.py",
        "experiments/bivariate_bicycle/collect_results.py",
        "experiments/quantum_tanner/collect_results.py",
        "qldpc/codes/quantum.py",
        "qldpc/cache.py",
    ],
    [("run_and_save", "experiments/bivariate_bicycle/run_search.py"), ("run_and_save", "experiments/quantum_tanner/run_randomized_search.py")],
    observe=["entries of the result store", "saved files", "collected tables"],
)
prop(
    "C10",
    "Answers about a code are right and depend neither on history nor on threads",
    "Parameters, distances, canonical checks, generators and words, logical, stabilizer and gauge operators, standard"
    " forms, Tanner graphs, strings, punctured, shortened, stacked, conjugated and deformed codes are what the parity"
    " checks of the code imply. Each answer equals that of a newly built code, whichever questions were asked before,"
    " by whichever threads that share the code, and however many of them were interrupted or ran out of memory.",
    ["histories", "schedules", "crash_points", "inputs"],
    "every classical, stabilizer and CSS (subsystem) code over a small field, every sequence of questions, every"
    " interleaving of threads that share codes, every point of interruption",
    "Tests ask a handful of codes a few questions, each in one order, by one thread and without interruption.",
    ["qldpc/codes/common.py", "qldpc/codes/classical.py", "qldpc/codes/quantum.py"],
    [("ClassicalCode, QuditCode, CSSCode", "qldpc/codes/common.py"), ("cached properties and lazily computed operators", "qldpc/codes/common.py")],
    observe=["public answers of shared codes"],
)
prop(
    "C11",
    "Logical-operator bases and generators are valid after every change",
    "Whatever sequence of setting, reducing, recomputing and inheriting is applied to a code (by conjugation,"
    " deformation, stacking, concatenation or copying), its logical operators commute with all parity checks and pair up"
    " exactly as X and Z operators of its logical qudits, and a generator is a basis of exactly the code words. A basis"
    " that was accepted is used as given, an invalid one is rejected and changes nothing, and reducing changes only the"
    " operators in question, even if decoders fail, raise or return garbage first, calls are interrupted, or threads"
    " read meanwhile. Matrices that a code has handed out or was given never change.",
    ["histories", "schedules", "crash_points", "fault_sequences", "inputs"],
    "every sequence of changes by one thread, with concurrent readers, interrupts and misbehaving decoders, for codes"
    " over small fields",
    "Tests set or reduce the operators of a few codes once, and never after an interrupt, under a failing decoder, or"
    " while somebody reads.",
    ["qldpc/codes/common.py"],
    [
        ("QuditCode.set_logical_ops, CSSCode.set_logical_ops_xz, CSSCode.reduce_logical_op", "qldpc/codes/common.py"),
        ("ClassicalCode.set_generator", "qldpc/codes/common.py"),
        ("conjugated, deformed, stack, concatenate", "qldpc/codes/common.py"),
    ],
    observe=["get_logical_ops, generator, iter_words", "arrays held by callers"],
)


prop(
    "C12",
    "Codes made from codes are what the operation denotes, and inputs stay unchanged",
    "Duals, stacks, tensor products, punctured and shortened codes, concatenations, conjugations, deformations, hypergraph"
    " products, Tanner codes, copies and conversions have exactly the checks, the logical operators and the parameters"
    " that the operation denotes for the codes it is given, also if those were made by other operations, were asked"
    " questions before, or are in use by other threads. The codes, matrices, graphs, maps and circuits that are given stay"
    " unchanged, and later changes of one code never reach another one.",
    ["histories", "schedules", "crash_points", "inputs"],
    "every composition of such operations on codes over small fields, every interleaving of threads that share the given"
    " codes, every point of interruption",
    "Tests apply single operations to a few fresh codes and compare parameters.",
    ["qldpc/codes/common.py", "qldpc/codes/quantum.py", "qldpc/codes/classical.py"],
    [
        ("stack, tensor_product, puncture, shorten, concatenate, conjugated, deformed, get_dual_subsystem_code", "qldpc/codes/common.py"),
        ("HGPCode, SHPCode", "qldpc/codes/quantum.py"),
        ("TannerCode", "qldpc/codes/classical.py"),
    ],
    observe=["public answers of the codes made", "the codes and arguments that were given"],
)


prop(
    "C13",
    "Decoders answer every syndrome rightly, whoever shares them",
    "A look-up table decoder returns a lightest error of its table with the given syndrome, and nothing if there is none;"
    " an integer program returns a lightest error, or an error if no error has the syndrome or the solver fails; generalized"
    " union-find and ordered statistics return an error with exactly the given syndrome whenever one exists. Blockwise and direct decoders"
    " apply them to each block, and to corrupted words, without modifying what they are given. Answers do not depend on"
    " what a decoder decoded before, on what callers did to earlier answers, on interrupted calls, or on other threads"
    " that share it.",
    ["histories", "schedules", "crash_points", "fault_sequences", "inputs"],
    "every history of decoding with shared decoders, every interleaving, interrupt point and solver fault, for parity"
    " check matrices over small fields (plain, or symplectic) without zero rows",
    "Tests decode one or two syndromes of one matrix per decoder, once, in one thread, with a solver that works.",
    ["qldpc/decoders.py"],
    [
        ("get_decoder, decode", "qldpc/decoders.py"),
        ("LookupDecoder, GUFDecoder, ILPDecoder, BlockDecoder, DirectDecoder", "qldpc/decoders.py"),
    ],
    observe=["answers of decoders", "arrays held by callers", "a fresh decoder of the same matrix"],
)


prop(
    "C14",
    "Distances are exact, and bounds never lie below them, whatever decoders do",
    "An exact distance (of a code, or of one type of its logical operators) is the smallest weight there is, and NaN for"
    " codes without logical content. Every upper bound on a distance, or on the distance of a vector from a code, is at least"
    " the exact value and at most the length of the code, even if the decoder used returns corrections that do not solve"
    " the problem, reuses its buffers, or raises at first (an error may then result, but no wrong bound). Asking ends"
    " once the decoder works, changes neither the code nor what was given, and is not influenced by other threads or"
    " interrupted questions.",
    ["schedules", "crash_points", "fault_sequences", "inputs"],
    "every small code, every behaviour of decoders, every interleaving and interrupt point",
    "Tests ask for bounds of a few codes with decoders that always work.",
    ["qldpc/codes/common.py", "qldpc/codes/distance.py"],
    [
        ("get_distance, get_distance_exact, get_distance_bound, get_one_distance_bound", "qldpc/codes/common.py"),
        ("get_distance_classical, get_distance_quantum", "qldpc/codes/distance.py"),
    ],
    observe=["distances and bounds", "the code afterwards"],
)


prop(
    "C15",
    "Estimated logical error rates are what the decoder's verdicts imply",
    "The logical error rate function of a code, at every physical error rate up to its maximum, is the average over error"
    " weights (with the probability of each weight at that error rate) of the fraction of sampled errors of that weight"
    " that the given decoder fails to correct; errors of weights that were not sampled count as failures, and none"
    " happen at error rate zero. A failure means that decoding leaves a nontrivial logical error. The standard error"
    " belongs to the same samples, larger error rates are refused, sampled errors follow the given Pauli bias, and"
    " neither arguments nor other threads' estimates are affected.",
    ["schedules", "crash_points", "fault_sequences", "inputs"],
    "every small code, every decoder (with failures), numbers of samples, maximal error rates and biases, every"
    " interleaving and interrupt point",
    "Tests compare one sampled rate with a loose bound.",
    ["qldpc/codes/common.py", "qldpc/decoders.py"],
    [("get_logical_error_rate_func, _get_sample_allocation, _get_error_probs_by_weight", "qldpc/codes/common.py")],
    observe=["values of the returned function", "the errors that decoders are shown"],
)


prop(
    "C16",
    "Encoders and transversal gates do what they claim, and none is missing",
    "An encoding circuit maps the first Pauli operators to the logical operators of the code, and the others to gauge"
    " operators, stabilizers and destabilizers. The automorphism group of a classical code consists of all bit"
    " permutations that keep its words. A transversal circuit consists of the permitted local gates (and qubit swaps,"
    " if permitted), keeps the stabilizer group (or maps it to that of the deformed code), and acts on logical"
    " operators, with signs, exactly as the reported tableau; a circuit is found for every logical gate that has one, and"
    " the list of circuits generates all transversal gates. Failures of GAP or of the stored answers, interrupts and"
    " concurrent users change none of this.",
    ["histories", "schedules", "crash_points", "fault_sequences", "inputs"],
    "every small qubit code, set of local gates, kind of fault of GAP and the store, interleaving and interrupt point",
    "Tests look for one or two gates of the Steane and five-qubit codes with known groups.",
    ["qldpc/circuits.py", "qldpc/codes/common.py", "qldpc/external/groups.py"],
    [
        ("get_encoding_tableau, get_transversal_automorphism_group, get_transversal_ops, get_transversal_circuits", "qldpc/circuits.py"),
        ("ClassicalCode.get_automorphism_group", "qldpc/codes/common.py"),
    ],
    observe=["circuits, tableaus and groups returned", "the code afterwards"],
)

prop(
    "C17",
    "Groups, their matrices and their group rings keep the laws of algebra",
    "A group made from permutations, a name, a multiplication table, matrices, as a product, or as a family (cyclic,"
    " Abelian, dihedral, alternating, symmetric, quaternion, small, SL, PSL) has exactly the members, order and"
    " multiplication that it is described to have. Each lift is a homomorphism to matrices over the field that it is"
    " advertised for. Members of group rings and matrices over them add, multiply, transpose, invert and lift as"
    " elements of the ring; null spaces are complete, row reduction keeps the row space and its promises, and primitive"
    " central idempotents are those that GAP reports. What is handed out can be modified without changing the group."
    " Failures of GAP, of the store, interrupts and concurrent users of a group change none of this.",
    ["histories", "schedules", "crash_points", "fault_sequences", "inputs"],
    "every small group, field and ring element, history of questions, kind of fault of GAP and the store, interleaving"
    " and interrupt point",
    "Tests check a few identities of a few groups; wrong conventions cancel for Abelian groups and for symmetric tables.",
    ["qldpc/abstract.py", "qldpc/external/groups.py"],
    [
        ("Group, from_table, from_generating_mats, lift, regular_lift", "qldpc/abstract.py"),
        ("RingMember, RingArray, null_space, row_reduce, get_primitive_central_idempotents", "qldpc/abstract.py"),
    ],
    observe=["members, orders, tables, lifts, products", "ring members, matrices, spans"],
)


prop(
    "C18",
    "Tanner graphs, operators, chain complexes and Cayley complexes match definitions",
    "Turning parity checks into a Tanner graph and back, or into operator strings and back, is lossless, whatever the"
    " order in which the graph lists its nodes and edges, and the product of graphs is the graph of the hypergraph"
    " product. Operators are only read from strings that operators are written as. Chain complexes over fields and"
    " group algebras are refused unless consecutive boundary operators compose to zero; their tensor products and duals"
    " have the dimensions and operators of the definition. Cayley complexes have exactly the vertices, edges, faces and"
    " covers of their subsets, and are refused if these are not symmetric or violate total no-conjugacy; quantum Tanner"
    " codes check exactly the words of their definition on those faces. Asking, interrupts and concurrent users of a"
    " shared object change none of it.",
    ["histories", "schedules", "crash_points", "inputs"],
    "every small matrix, field, group and chain of operators, order of the nodes of a graph, history of questions,"
    " interleaving and interrupt point",
    "Tests convert a few graphs whose nodes all have edges, multiply chains over fields, and build Cayley complexes of"
    " two or three groups, one call at a time.",
    ["qldpc/objects.py", "qldpc/codes/common.py", "qldpc/codes/quantum.py", "qldpc/math.py"],
    [
        ("Node, Pauli, QuditOperator, CayleyComplex, ChainComplex", "qldpc/objects.py"),
        ("matrix_to_graph, graph_to_matrix, get_strings, from_strings", "qldpc/codes/common.py"),
        ("HGPCode.get_graph_product, QTCode.get_subgraphs", "qldpc/codes/quantum.py"),
    ],
    observe=["graphs, matrices and strings", "boundary operators", "vertices, edges, faces and checks"],
)

prop(
    "C19",
    "Families of codes are what their definitions say, with the parameters they claim",
    "Each parameterised family (repetition, ring, Hamming, Reed-Muller, Reed-Solomon, BCH, simplex, Tanner; five-qubit,"
    " Steane, iceberg, C6, two-block, quasi-cyclic, bivariate bicycle, hypergraph and lifted products, their subsystem"
    " versions, surface, toric, Bacon-Shor, SHYPS) has the parity checks of its documented construction over every field"
    " and size it accepts, and the length, dimension and distances that it claims. Parameters for which there is no such"
    " code are refused. The documented layouts, labels, positions, sectors, logical operators and equivalent toric"
    " layouts agree with those checks. Concurrent use of a code, interrupted constructions and questions asked before"
    " change none of it.",
    ["histories", "schedules", "crash_points", "inputs"],
    "every small choice of parameters, field, polynomials and group, history of questions, interleaving and interrupt"
    " point",
    "Tests build a handful of sizes over GF(2) or GF(3) and mostly compare the library with itself.",
    ["qldpc/codes/classical.py", "qldpc/codes/quantum.py"],
    [
        ("RepetitionCode ... SimplexCode, TannerCode", "qldpc/codes/classical.py"),
        ("FiveQubitCode ... SHYPSCode, QCCode.eval, BBCode.get_equivalent_toric_layout_code_data", "qldpc/codes/quantum.py"),
    ],
    observe=["parity checks and parameters", "labels, positions and layouts", "refusals"],
)


NOTES = {
    "*": "Seeded sampling of schedules and fault sequences against a small reference model: a clean batch is"
    " evidence, not proof. Trusts the simulated services and the in-process scheduler.",
}


def main() -> None:
    with open(os.path.join(HERE, "properties.jsonl"), "w") as stream:
        for p in PROPS:
            stream.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    na = {i for i, _ in NOT_APPLICABLE}
    checks = []
    for p in PROPS:
        if p["id"] in na:
            continue
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"./check.sh {p['id']} --tier quick",
                "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": TECHNIQUE,
                "level": "exploration",
                "level_note": p["_note"] or NOTES["*"],
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE],
        "notes": "One simulator (dst/) decides every claimed property; it needs no hooks in /repo: the seams are"
        " diskcache.Cache, subprocess.Popen, HTTPConnection.connect, input(), os.replace/open, threading.Lock and"
        " sys.monitoring line events. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as stream:
        json.dump(manifest, stream, indent=1)
        stream.write("\n")


if __name__ == "__main__":
    main()
