#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when its check exists."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
VF = "value-flow summaries of the LLVM IR (Herbrand domain, gated joins) compared with specification terms"
TECH = {
    "C01": (VF, "every driver's result, frame and object lifetimes; trusts the FLINT/GMP contracts in lib/catalog.py and the representatives used where terms differ syntactically"),
    "C02": (VF, "six relations x operand kinds x sides; predicates over cmp(a,b) are decided on representative values when not syntactically equal"),
    "C04": ("compile-fail and compile-pass witnesses: one statement per documented form and per forbidden form, type-checked by clang against the current headers", "a finite catalogue of statements (153 that must compile, 169 that must not), each an overload/constraint question decided by the type checker"),
    "C05": (VF, "six relations x operand kinds; ball comparisons are decided on representative balls (exact, touching, overlapping, infinite, huge)"),
    "C06": (VF, "every constructor, assignment, conversion and named ball; trusts the FLINT contracts in lib/catalog.py"),
    "C08": (VF, "every static operation of the three rings x operand kinds; the C++ interface of e-antic is modelled by its documented contract"),
    "C09": (VF, "idiv of all rings: the raise condition, exception type, quotient, and that no zero divisor reaches a library division"),
    "C11": (VF + "; path conditions of every answer evaluated over a finite model of values and enclosing balls, loops followed through their transfer functions", "575 comparison/conversion drivers, floordiv and the symbolic shortcuts of the three rings; model: representative values, balls and coefficient vectors of up to three generators; trusts the FLINT/GMP catalogue"),
    "C12": ("error bounds of value-flow summaries of the LLVM IR: each approximation's term bounded with the documented roundings of the library calls in it, loops by the bound of their step", "four kinds of real numbers and RealNumber::refine/arb; bounds are evaluated on representative numbers, degrees and precisions; trusts the rounding contracts of FLINT"),
    "C14": (VF + "; per-loop induction on the digit store", "the digit cache's refinement loops and every writer of the cached digits; the number of digits at the loop exit is decided on a grid of precisions"),
    "C13": (VF + " of every function that makes pooled objects; keys, hashes and objects evaluated in finite models of monomials, rationals, seeds and bases", "products, quotients and deglex on monomials in three symbols up to degree nine; all entry points that make rational, random and constrained random numbers, loaders included; keys of the three kinds of modules; the counters of identifiers and seeds; trusts the unique-factory library, which is absent here"),
    "C16": (VF + " of every saver, replayed into the summary of its loader: the state of the object that is made must be the state that was saved", "all entries of Cerealizer and Decerealizer, the four kinds of real numbers, Arb, Arf, rings, modules and elements; trusts that an archive gives back each entry that was put in, and that FLINT's and GMP's texts read back as the number they were made from"),
    "C17": (VF + " of both build configurations, the condition of every throw evaluated in models of the arguments; conditions of checks found in the syntax tree and searched for effects", "about 35 functions that document an argument error, in release and debug builds, about 9,000 cases; 35 conditions of checks and assertions; the run-time switch"),
    "C18": (VF + " with abstract elements as operands, evaluated in models that are finite free modules of monomials over Z, Q and a chain of fields, against module algebra", "all arithmetic members of Element over the three rings plus the boost operators of the header: 230 functions, about 44,000 evaluations (five times as many thorough); modules of up to five generators; generators are monomials in two transcendentals; loops are followed to the end in each case"),
    "C19": (VF + " with abstract bases, evaluated in models that are finite sets of generators over Z, Q and a chain of fields", "make from generators and from a basis, span, submodule, equality, generators, zero, one and rank of the three kinds of modules; bases of up to four generators in every order and with repetitions; loops are followed to the end in each case; the identity given to equal keys is the contract of the factory"),
    "C15": (VF + "; non-interference of the digits with anything but the seed", "all constructors of Seed, all overloads of RealNumber::random and the digit generator; trusts that boost's and GMP's generators are deterministic"),
    "C22": ("exhaustive comparison of declarations with definitions: the functions the headers declare (clang's syntax tree) and the symbols a client spelling every public operation needs, against the symbols of the linked library", "424 declared functions and 823 spelled uses (three rings x operand kinds); each header alone and twice in a program; g++ only"),
    "C20": (VF + " of every std::hash, evaluated in models in which equal objects are represented differently", "elements of all modules over three generators and three nested fields, fields at different addresses, rings, Arf, Python elements; e-antic's hash of a field is trusted"),
    "C21": ("abstract evaluation of the Python syntax trees on symbolic operands; " + VF + " of instantiations of the C++ stubs", "four arithmetic operators, negation and six relations of seven proxy types, wrapped object left, right, both; sixteen methods of the SageMath elements; SageMath's and cppyythonizations' own code is trusted"),
    "C23": ("flow analysis of accesses to process-wide state in the LLVM IR: which accesses are atomic or dominated by the acquisition of their lock", "every function of all units; mutable members of real numbers that two threads share are out of scope (stated in the property); trusts boost's factories' locking"),
    "C10": ("forward dataflow analysis of the state of every rational (in lowest terms, numerator and denominator set apart, only one of them set) with what is known of its parts, over the control flow graphs with the members of mpq_class in place", "all functions of the library's sources, the savers and loaders of the headers for an abstract archive: about 1,260 functions, 2,100 rationals, 7,800 uses; rationals in containers that are reduced in place, and numerators and denominators that were divided or compared by hand, are undecided; assumes that a function of GMP that computes a rational leaves it in lowest terms if its arguments are, and that rationals that come as arguments or from text are in lowest terms"),
    "C07": ("typestate analysis in the style of ESP of the states of every object of a C library, over all paths of the functions' control flow graphs, with the edges of exceptions", "all functions of the library's sources, the savers and loaders of the headers for an abstract archive, about 690 expressions: 4,460 functions, about 700 objects and buffers; objects inside of containers and of GMP's C++ classes are the compiler's to release"),
    "C26": (VF + " of the constructors, composed with the summary of the approximation and evaluated at the extremes of draws and digits; induction over the digit loop", "153 intervals, 48 doubles, four overloads; the digit generator's loop for all numbers of digits"),
    "C03": (VF, "systematic family of expression shapes (about 690 instantiations), not all trees; each summarised for all operand values"),
}
NA = {
    "C24": "the primitives are external binaries whose source is not part of the tree; their documented contracts are an assumption of every other check",
    "C25": "termination depends on unbounded random digits and on number-theoretic facts about the operands (two distinct numbers may agree to any finite precision); no static bound exists",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
exec(open(os.path.join(V, "tools", "manifest_data.py")).read()) if os.path.exists(os.path.join(V, "tools", "manifest_data.py")) else None
checks, na = [], []
for p in props:
    if p in TECH and os.path.exists(os.path.join(V, "checks", p + ".py")):
        t, n = TECH[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s thorough" % p, "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they compile /repo's current sources to LLVM IR or query their syntax tree, and never run them."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks])
