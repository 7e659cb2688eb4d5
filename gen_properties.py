import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":["src/"+f for f in files],"mechanism":[{"name":n,"where":"src/"+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"src/"+w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Facet enumeration by double description is exact",
 "For every set of vertices and rays (at least one vertex) the double description method prints a basis of the equations that hold on the polyhedron and, for every facet, exactly one inequality that is valid on all vertices and rays and tight exactly on those of that facet. Nothing else is printed: no redundant, duplicate or invalid inequality, whatever the number of vertices, the dimension, redundant input points, or degeneracy.",
 ["inputs"],"all finite sets of rational vertices and integer rays with at least one vertex, any dimension, full-dimensional or not, whose intermediate values fit the chosen integer type",
 "The tests call the elimination on a handful of fixed matrices; correctness has to hold for every combinatorial type, every number of vertices (the bit set representation changes with it) and every degeneracy.",
 ["algorithm_fourier_motzkin_elimination.cpp","method_double_description.cpp","algorithm_matrix_operations.cpp","algorithm_inequality_operations.cpp"],
 [("phase two with redundancy elimination","algorithm_fourier_motzkin_elimination.cpp"),("extraction of equations","algorithm_matrix_operations.cpp")],["standard output of panda -m dd"])
p("C02","Adjacency decomposition is exact for every thread count and interleaving",
 "For every set of vertices and rays (at least one vertex) adjacency decomposition prints exactly the equations and the facets of the polyhedron, each facet once, for every number of threads and every interleaving of the worker threads. Every facet that shares a ridge with a processed facet is reported, including ridges that consist of rays only.",
 ["inputs","schedules"],"all vertex/ray descriptions with at least one vertex, all thread counts, all interleavings of workers",
 "No test runs the adjacency decomposition; the result depends on reaching every facet through ridges, on the interleaving of the workers and on the starting facet.",
 ["method_adjacency_decomposition_implementation.cpp","algorithm_rotation.cpp","algorithm_fourier_motzkin_elimination.cpp","list.cpp"],
 [("rotation around ridges","algorithm_rotation.cpp"),("worklist closure","method_adjacency_decomposition_implementation.cpp")],["standard output and progress messages of panda -m ad -t N"])
p("C03","Vertex enumeration is exact with both methods",
 "For every system of inequalities and equations that describes a non-empty polyhedron with at least one vertex, both methods print exactly the vertices and the extreme rays of that polyhedron, each once, with exact rational coordinates. Redundant, duplicate or trivial constraints do not change the set that is printed.",
 ["inputs","schedules"],"all finite systems of integer inequalities and equations describing non-empty pointed polyhedra, both methods, all thread counts",
 "No test runs vertex enumeration; it depends on the dual use of the elimination, the constraint at infinity and the treatment of rays.",
 ["method_vertex_enumeration.cpp","method_double_description.cpp","method_adjacency_decomposition.cpp","input.cpp","algorithm_rotation.cpp"],
 [("implicit constraint at infinity","input.cpp"),("output of vertices and rays","method_double_description.cpp")],["standard output of panda on inequality input"])
p("C04","Worker pool: every row handed out once, clean termination, no lost work",
 "Every distinct row put into the worker pool is printed exactly once and handed to exactly one worker, and no row is handed out that was not put. A worker is told to stop only when every row has been handed out and no row is still being processed, and then every worker is told so: no interleaving makes a worker wait forever or stop while work remains.",
 ["schedules","histories"],"all interleavings of any number of workers and of the initialisation with every pattern of new, duplicate and empty results, including spurious wake-ups",
 "The list test is single threaded with a fixed sequence of calls; lost wake-ups, premature termination and double hand-outs need particular interleavings.",
 ["list.cpp","list.h","job_manager.cpp","method_adjacency_decomposition_implementation.cpp"],
 [("mutex and condition variable around the pool","list.cpp"),("termination marker","list.cpp")],["return values of get, rows printed, progress messages"],
 [("workers","number of active workers, starts at 1 for the initialisation","list.h"),("rows","all rows known","list.h"),("iterators","rows not handed out yet","list.h")])
p("C05","Shared state of the worker pool is free of data races",
 "All memory of the worker pool that is shared by several threads is accessed under mutual exclusion: in every execution, any two accesses to the same location by different threads of which at least one writes are ordered by synchronisation.",
 ["schedules"],"all executions of any number of threads that put and get rows, including termination",
 "A data race has no reliable symptom; the existing list test has one thread only.",
 ["list.cpp","list.h"],[("lock guards in put, get and the termination test","list.cpp")],["memory accesses and synchronisation operations of the running threads"])
p("C06","Options change effort, not the answer",
 "The set of equations, facets, vertices and rays that is printed for an input does not depend on the method, on the number of threads, on the sorting option, or on the integer type as long as no value overflows it. Permuting or repeating the rows of the input does not change the set either.",
 ["configurations","inputs"],"all combinations of -m, -t, -s, -i and row orders on inputs whose intermediate values fit the integer type",
 "Tests check the detection of single options, never that two configurations agree on a result.",
 ["method_facet_enumeration.cpp","method_vertex_enumeration.cpp","integer_type_selection.cpp","input.cpp","input_detection.cpp","concurrency.cpp"],
 [("dispatch on integer type and method","method_facet_enumeration.cpp"),("sorting of rows","input.cpp")],["standard output under every option combination"])
p("C07","Known facets or vertices do not change the result",
 "Supplying true facets (or true vertices and rays) of the polyhedron with the known-data option leaves the printed set unchanged: every facet, vertex or ray is still printed exactly once, whichever subset is known, in whatever order, multiplicity, scaling, or equivalent representation modulo equations it is given, with any number of threads and with or without symmetry.",
 ["inputs","schedules","configurations"],"all subsets and representations of the true result used as known data, all thread counts",
 "The known-data path has no test at all; it adds rows concurrently with the running computation.",
 ["input.cpp","method_adjacency_decomposition_implementation.cpp","algorithm_row_operations.cpp"],
 [("normalisation of known rows","method_adjacency_decomposition_implementation.cpp"),("asynchronous insertion","method_adjacency_decomposition_implementation.cpp")],["standard output of panda -k FILE"])
p("C08","Symmetry: exactly one representative per orbit",
 "If the maps of the input are symmetries of the described polyhedron, the reduced output contains exactly one member of every orbit of facets (or of vertices and rays) under the group they generate, and nothing else, also for polyhedra that satisfy equations. Conversely reduced input stands for all images of the listed rows under that group, modulo the equations of the input.",
 ["inputs","schedules"],"all polyhedra and all sets of affine integer symmetries (permutations, sign changes, translations, several terms per image), full-dimensional or not",
 "Tests apply single maps to single rows; orbits, representatives modulo equations and the expansion of reduced input are not covered.",
 ["algorithm_classes.cpp","algorithm_map_operations.cpp","input.cpp","method_double_description.cpp","method_adjacency_decomposition_implementation.cpp"],
 [("orbit closure and representative","algorithm_classes.cpp"),("maps modulo equations","algorithm_map_operations.cpp"),("expansion of reduced input","input.cpp")],["reduced output of both methods"])
p("C09","Equivalent notations of an input have the same meaning",
 "Two input files that denote the same description give the same result: keyword spellings and an optional END, named or coefficient-vector constraints, <= versus >=, fractions, row identifiers in parentheses, blank lines, tabs, surrounding blanks and CRLF line ends, attached or separate signs, and the order of sections (names before the rows and maps that use them, maps before reduced vertices or rays) do not matter. Every row of every section is taken into account with exactly the values written.",
 ["inputs"],"all documented notations of all descriptions, in any combination",
 "Tests parse a few isolated lines; combinations of notations in whole files are never read.",
 ["input.cpp","input_vertex.cpp","input_constraint.cpp","input_constraint_named_variables.cpp","input_constraint_unnamed_variables.cpp","input_names.cpp","input_map.cpp","input_keywords.cpp","input_common.cpp"],
 [("section readers","input.cpp"),("constraint readers","input_constraint_named_variables.cpp"),("keyword table","input_keywords.cpp")],["standard output of panda on generated files"])
p("C10","Malformed input is rejected, never truncated or misread",
 "A file that does not follow the format - a token that is not a number, a name that is not declared, a missing or repeated relation or right hand side, a zero denominator, a repeated variable, a number that does not fit, rows, maps, names, equations, known data or a stated dimension of inconsistent length, a repeated section, missing vertices or inequalities - makes the program terminate with an error message and a non-zero exit status. It never prints a result computed from a part of the data, and never hangs.",
 ["inputs"],"all token sequences in rows of every section and all inconsistent combinations of sections",
 "Tests contain a few invalid lines per parser; silent truncation shows only in whole files and in unusual positions.",
 ["input_vertex.cpp","input_map.cpp","input_constraint_named_variables.cpp","input_constraint_unnamed_variables.cpp","input_consistency.cpp","input_common.cpp","input.cpp"],
 [("errors in row readers","input_vertex.cpp"),("consistency checks","input_consistency.cpp")],["exit status, error message, standard output, termination"])
p("C11","Option --check accepts exactly valid maps and known data",
 "With the check option the program computes a result if every map is a bijection on the listed (distinct) vertices, rays or inequalities up to positive scaling and every known row is a facet (or vertex or extreme ray) of the described polyhedron. Otherwise it terminates with an error and without a result; this does not depend on the order of the sections.",
 ["inputs"],"all descriptions with distinct rows and all maps and known rows, valid or not",
 "The validity checks have no test.",
 ["input_validity.cpp","input.cpp"],[("bijection test","input_validity.cpp"),("facet and extremality tests","input_validity.cpp")],["exit status and output of panda -c"])
p("C12","Checked integers: exact result or exception",
 "Every operation of the overflow-checked integer type yields the mathematically exact result if that is representable in the underlying type, and raises an exception otherwise; it never wraps around. Comparisons and conversions agree with the mathematical values.",
 ["inputs"],"all pairs of representable values and all sequences of operations",
 "Tests sample a few values; the boundary cases are the negative minimum, mixed signs and products at the edge of the range.",
 ["safe_integer.cpp","safe_integer.h","safe_integer.tpp"],[("overflow-checked built-ins","safe_integer.cpp")],["results and exceptions of operations"])
p("C13","Arbitrary precision integers are exact",
 "Every operation of the arbitrary precision integer type - construction, comparison, addition, subtraction, multiplication, truncating division and remainder, gcd, absolute value, sign, conversion and printing - agrees with integer arithmetic for all magnitudes and signs, also when operands alias.",
 ["inputs","histories"],"all integers of any size and sign, all sequences of operations",
 "Tests check small values and few carries; errors hide at word boundaries, in signs and in long division.",
 ["big_integer.cpp","big_integer.h","big_integer_arithmetics.cpp","big_integer_comparisons.cpp","big_integer_constructors.cpp"],
 [("small/large representation and carries","big_integer_arithmetics.cpp"),("comparison by sign and magnitude","big_integer_comparisons.cpp")],["value printed after every operation"])
p("C14","Large coefficients: exact result or visible failure",
 "With the arbitrary precision type the printed result is exact however large the intermediate values and the coefficients of the result are, and with the checked type the program either prints the exact result or terminates visibly with an error; neither ever ends normally with a wrong result.",
 ["inputs","configurations"],"all inputs whose coefficients fit the input format, including those whose intermediate values or results exceed 16, 32 and 64 bit",
 "The integer types are tested in isolation with small values, never inside the algorithms.",
 ["integer_type_selection.cpp","integer_type_detection.cpp","big_integer.cpp","safe_integer.cpp","cast.cpp","algorithm_row_operations.cpp","algorithm_integer_operations.cpp"],
 [("templates over the integer type","integer_type_selection.tpp"),("conversion of input","cast.cpp")],["standard output and exit status of panda -i safe / -i inf"])
p("C15","Bit sets behave as sets at every capacity",
 "The fixed-size and the variable-size bit set behave as finite sets of indices for every capacity and every index, including the first and last index of every word: setting an index, union, counting the members of a set and of a union, comparison of equality, inclusion in a set and in a union of two sets, copying and moving agree with the set operations whatever number of indices is in use, and both representations agree with each other.",
 ["inputs","histories"],"all capacities in use and all sequences of operations on all indices",
 "Tests use a few indices in one or two words.",
 ["bitset_fixed_size.tpp","bitset_fixed_size.cpp","bitset_fixed_size.h","bitset_variable_size.cpp","bitset_variable_size.h","popcount.h","popcount.tpp"],
 [("word-wise operations","bitset_variable_size.cpp"),("word-wise operations","bitset_fixed_size.tpp")],["results of the bit set operations"])
p("C16","Output is faithful: it can be read back to the same polyhedron",
 "The printed description, read as input, denotes the same polyhedron: converting vertices to facets and back (or facets to vertices and back) yields the original vertices and rays (or facets); the combined listing of vertices and rays of adjacency decomposition, whose last column tells vertices from rays, denotes its two sections. Named and unnamed printing denote the same rows: every non-zero coefficient is printed with its sign, value and the name of its coordinate, and the right hand side is printed exactly, with any integer type.",
 ["inputs","configurations"],"all results, names, integer types and both directions",
 "Tests never parse printed output again.",
 ["algorithm_inequality_operations.cpp","algorithm_row_operations.cpp","method_double_description.cpp","big_integer.cpp"],
 [("pretty printing","algorithm_inequality_operations.cpp")],["standard output fed back as input"])
p("C17","Command line is interpreted as documented",
 "For every order and spelling of documented options the operation (facet enumeration, vertex enumeration, help, version, refusal of mixed files), method, integer type, sorting, thread count, check flag, known data and file name that take effect are the ones that are given; defaults apply when an option is absent (the number of threads concerns adjacency decomposition only). A missing or illegal argument, or a second file name, is reported as an error instead of being ignored.",
 ["configurations","inputs"],"all sequences of documented options, their spellings and arguments, and all combinations of sections in the file",
 "Tests call single detection functions on a few argument lists.",
 ["input_detection.cpp","input_method.cpp","integer_type_detection.cpp","concurrency.cpp","input.cpp","main.cpp","help.cpp"],
 [("option detection","input_detection.cpp"),("thread count","concurrency.cpp"),("integer type","integer_type_detection.cpp"),("method","input_method.cpp")],["messages, output and exit status; results of the detection functions"])
p("C18","Linear algebra kernel is exact",
 "The equations extracted from a set of points form a basis of all linear equations that hold on them; dimension is the true rank, elimination only replaces the columns by an equivalent basis and its pivots mark a maximal independent set of rows, normalisation of a row modulo equations gives one canonical representative per class of equivalent rows, and row operations, products, gcd, lcm, distances and the choice of the nearest and furthest vertex are exact for all signs and zeros.",
 ["inputs"],"all integer matrices, rows and integers whose intermediate values fit",
 "Tests use fixed small matrices.",
 ["algorithm_matrix_operations.cpp","algorithm_row_operations.cpp","algorithm_integer_operations.cpp","algorithm_inequality_operations.cpp"],
 [("Gaussian elimination","algorithm_matrix_operations.cpp"),("normalisation","algorithm_row_operations.cpp")],["results of the operations"])
p("C19","Scoped helpers: joined threads, delayed actions, restored files",
 "A scope guard and a delayed action run their action exactly when and as often as specified (once, at scope exit or when due, never after being dismissed), also when the scope is left by an exception; a joining thread has finished when its owner is destroyed; a file in a good state that is used through the guard (or looked into ahead) is back at its old position and in a good state after every use, however far the use read. Moved-from helpers never act a second time.",
 ["histories","schedules"],"all sequences of construction, move, dismissal, exceptions and destruction (actions do not throw themselves), all file contents and positions",
 "Tests cover the straight-line use of each helper.",
 ["scope_guard.h","scope_guard.tpp","delayed_action.cpp","delayed_action.tpp","delayed_action.h","joining_thread.cpp","joining_thread.h","joining_thread.tpp","position_guarded_file.cpp","istream_peek_line.cpp"],
 [("destructors","scope_guard.tpp"),("restoring position","position_guarded_file.cpp")],["effects of the helpers"])
p("C20","Distributed runs give the result of a single process",
 "With message passing enabled and any number of processes and threads, adjacency decomposition gives every class to exactly one process and computes it once, its results reach the master completely and unmixed, all processes terminate, and the master alone prints, the same set as a run with one process. No interleaving or delay of messages changes that. If a run with one process fails, so does the distributed one, and it ends.",
 ["schedules","histories","configurations"],"all numbers of processes and threads, all message delays and interleavings",
 "The message passing code is neither compiled nor tested by the test suite.",
 ["job_manager.cpp","job_manager_proxy.cpp","communication.cpp","message_passing_interface_session.cpp","method_adjacency_decomposition.cpp"],
 [("request threads per process","job_manager.cpp"),("message protocol","communication.cpp")],["messages exchanged and output of the master"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
