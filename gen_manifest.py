#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when vlib/<id>.py exists."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": ("TLC-checked TLA+ definition of facets; observations of the real program on TLC-enumerated, closed-form and random inputs judged by TLC",
         "TLC enumerates small input universes completely and checks the theory behind the facet definition on them; every printed result of the real program is judged by TLC. Closed forms (model-checked on small terms) carry the judgement to thousands of vertices and all bit set capacities. Inputs outside these families are sampled. Trusted: TLC, the parser of the printed rows, exact integer signs computed by the driver for rows too large for TLC."),
 "C02": ("TLA+ facet definition, worklist specification and trace validation of real runs of the adjacency decomposition",
         "As C01 for the adjacency decomposition with several thread counts. Interleavings are explored by a deterministic scheduler below the real program on a bounded set of inputs, not exhaustively."),
 "C03": ("TLC-checked TLA+ definition of extreme rays; outputs of both methods judged by TLC",
         "TLC enumerates small constraint universes, checks Weyl's theorem on them and judges every printed result; polar closed forms reach 1601 rows. Other inputs are sampled."),
 "C04": ("TLA+ specification of the pool (Pool, JobPool) model-checked by TLC; executions of the real pool under a deterministic scheduler validated by TLC as behaviours of it",
         "JobPool refines Pool and terminates for the worker/row numbers in the configuration. Real executions: behaviours simulated from JobPool are replayed step by step, small instances are explored systematically up to a preemption bound, larger ones by random and priority schedules; every trace is judged by TLC. Interleavings are at the granularity of synchronisation operations."),
 "C05": ("TLA+ happens-before monitor run by TLC over memory and synchronisation events recorded from the instrumented real pool",
         "Every access of the pool code (compiler instrumentation) in scheduled executions is recorded; TLC runs the race monitor over the recorded behaviour. Data races that need a code path not reached by the explored schedules are not seen."),
 "C06": ("TLA+ specification of the option/permutation variants of an input; TLC decides that all results denote the same set",
         "Variants are enumerated by the specification and applied to TLC-enumerated, closed-form and random inputs; results are compared by TLC with the definition or with each other. Inputs are sampled."),
 "C07": ("TLA+ specification of runs that continue from known rows; results on inputs with all kinds of known data judged by TLC",
         "TLC checks that known valid rows suffice and never change the described set (KnownFacetsSuffice, KnownVerticesSuffice) on small universes; runs of the real program with TLC-enumerated subsets of known rows are judged against the definition and against the run without known rows. Larger inputs are sampled."),
 "C08": ("TLA+ definition of orbits under the group generated by the maps; results on TLC-enumerated symmetric inputs judged by TLC",
         "SymmetryUniverse enumerates maps and closed point sets of small dimension and TLC checks that maps act on the facets; results of real runs (plain, reduced, embedded in equations) are judged by TLC."),
 "C12": ("TLA+ digit arithmetic (BigNum) and register programs (RegisterMachine); executions of the real checked integers judged step by step by TLC",
         "TLC checks BigNum and the overflow guards exhaustively on small ranges (IntegerTheory). All programs of one instruction run on pairs of boundary values, all programs of two instructions on random values; TLC judges every intermediate state, exception, comparison and conversion. Operand values are sampled, with emphasis on the limits of the underlying type."),
 "C13": ("TLA+ digit arithmetic (BigNum) and register programs (RegisterMachine); executions of the real arbitrary precision integers judged step by step by TLC",
         "TLC checks BigNum exhaustively on small ranges (IntegerTheory). All programs of one and two instructions, including all aliasing patterns, run on boundary and random values of up to several hundred bits; TLC judges every intermediate state, comparison, conversion and printed value. Operand values are sampled around word boundaries."),
 "C14": ("TLA+ geometry over digit arithmetic (LargeGeometry on BigNum); results of real runs with large coefficients judged by TLC",
         "TLC checks that LargeGeometry agrees with the small-number definition (LargeTheory); results of real runs with coefficients up to 31 bits in the input and several hundred bits in between are judged by TLC with exact arithmetic: exact, or (checked type) a visible failure. Inputs are sampled, up to four dimensions and eight rows."),
 "C15": ("TLA+ specification of sets in words (Bitset, refined by BitsetWords); executions of the real bit sets validated by TLC step by step",
         "TLC checks for small words that word-wise operations are the set operations; every program of one and sampled programs of two and more instructions run on both representations for all capacities up to 162 and all word boundaries of the sizes in use, and TLC judges every query after every step."),
 "C16": ("TLA+ reading of rows (Printing) and of polyhedra; printed rows and round trips through the real program judged by TLC",
         "TLC checks that the canonical spelling of a row reads back (PrintingUniverse); rows enumerated by TLC and rows around word and decimal boundaries are written by the real functions for every integer type and judged; round trips of TLC-enumerated and random polyhedra feed the text of the first run to a second one and TLC compares with the original. Inputs are sampled."),
 "C18": ("TLA+ elimination as a transition system and normal forms (Elimination, NormalForms) over digit arithmetic; results of the real functions judged by TLC",
         "TLC checks the elimination with every choice of pivots and the canonicity of reduction on small universes; every small matrix and random ones run through the real functions with all integer types and TLC judges the relations (kernel basis, product, rank, one normal form per class, exact row arithmetic). Larger operands are sampled."),
 "C09": ("TLA+ specification of the input language (InputLanguage: tokens, rows, sections, Meaning of a document; InputMutations); TLC-enumerated documents are written in randomized notations, read by the real program and judged by TLC",
         "TLC enumerates nine documents that cover all kinds of sections with every single edit of a token, row or section (and a sample of second edits); those with a meaning are written with all keyword spellings, separators, identifiers and line ends and what the real readers return is compared with Meaning; whole runs of two notations must print the same. Notations are sampled; names are simple words; numbers have up to 32 bits."),
 "C10": ("TLA+ specification of the input language (InputLanguage, InputMutations); documents without a meaning are written and run through the real program, refusals judged by TLC",
         "All documents of the same enumeration without a meaning are read by the real readers and run through the program: a message, a non-zero exit status, no result and termination are required. Junk tokens are representatives; hangs are detected by a 40 s limit."),
 "C11": ("TLA+ specification of what --check accepts (Check, CheckUniverse); TLC-generated valid inputs and their one- and two-step changes are run with the option and judged by TLC",
         "TLC draws descriptions closed under maps with facets or vertices of them as known rows, and small changes of rows, maps and known rows; the real program has to accept exactly those that Check accepts, with the result it has without the option. TLC also checks that the criterion by rank is the definition by maximal faces. Dimensions up to 3, small numbers, sampled."),
 "C17": ("TLA+ specification of the command line (Options, OptionsUniverse); every documented spelling and TLC-enumerated sequences replayed through the real program and judged by TLC",
         "TLC enumerates all single options in every documented and in broken spellings, and ordered sequences over a smaller vocabulary; the functions that read the command line and whole runs (method, exactness, order of rows, threads created, refusals) are judged against Meaning. Sequences of several options are sampled in the quick tier; int and the 32 bit type cannot be told apart."),
 "C19": ("TLA+ specification of owners of actions (Helpers) and of files read with look-ahead (Streams); TLC-enumerated and random programs executed with the real helpers and judged by TLC",
         "TLC enumerates all programs of up to four to six operations over two helpers (construction, move, dismissal, passing of time, destruction, leaving normally or by an exception) and of up to four reads of eight small files with nested guarded uses, plus long random ones; the real classes execute them under a clock the program moves and TLC judges how often every action ran after every operation, and position, state and text of the files. Long programs are sampled; actions do not throw."),
 "C20": ("TLA+ specification of the distributed worklist (Distributed) model-checked by TLC; runs of the real program over an adversarial network are recorded and judged by TLC",
         "TLC checks safety and termination of the protocol for small numbers of nodes, threads and classes, with buffered and synchronous sends, and that none of its locks can be left out. The real program is compiled with message passing against a stand-in library that delays messages and completions adversarially (real processes, real threads, memory checker); TLC judges every message, the work on the classes and the output of up to five processes against a run with one. Schedules and inputs are sampled; the real message passing library is trusted."),
}
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(D, "vlib", i.lower() + ".py")) and i in T:
        tech, note = T[i][:2]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "No check."})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); import vlib.core\"", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
