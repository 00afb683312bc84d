#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are edited in one place)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))

p("S01","A satisfiable answer carries a genuine model",
 "Whenever a solve (direct, timed, asynchronous or on a copy) answers 1, the values the solver then reports satisfy every clause added so far and every literal assumed for that solve, and a literal and its negation never report the same value. The values stay those of that model until the next solve, whatever is added in between only after them.",
 ["inputs","histories"],"every clause set, every assumption set and every interleaving of adding, assuming and solving",
 "The tests solve a few generated families and compare the verdict; a wrong value for one variable in one history (after learning, restarts, clause deletion, reallocation of the variable arrays) is not sampled.",
 ["gini.go","internal/xo/s.go","internal/xo/vars.go","internal/xo/trail.go","internal/xo/cdb.go"],
 [("two-watched-literal propagation","internal/xo/trail.go Prop"),("clause addition and unit/empty handling","internal/xo/cdb.go Add"),("search loop and result","internal/xo/s.go Solve, cleanupSolve"),("value storage","internal/xo/vars.go")])
p("S02","An unsatisfiable answer is sound",
 "Whenever a solve answers -1, no assignment satisfies all clauses added so far together with the literals assumed for that solve.",
 ["inputs","histories"],"every clause set, assumption set and incremental history, including histories in which learned clauses are minimised, reused, and garbage collected between solves",
 "An unsound learned clause or a lost literal makes only particular later formulas come out unsatisfiable; the tests check verdicts on few instances and cannot quantify over histories.",
 ["internal/xo/s.go","internal/xo/derive.go","internal/xo/trail.go","internal/xo/cdb.go"],
 [("first-UIP derivation and minimisation","internal/xo/derive.go"),("backjumping","internal/xo/s.go Solve"),("level-0 conflicts","internal/xo/cdb.go, cleanupSolve")])
p("S03","Every unlimited solve decides, whatever came before",
 "A solve without a time limit terminates without panicking and answers 1 or -1, for every sequence of adding clauses (empty, unit, duplicate-literal and tautological ones included), assuming, and solving again. In particular solving again after an unsatisfiable answer, and after adding or assuming more, still answers correctly.",
 ["inputs","histories"],"every history of add, assume and solve calls",
 "The tests exercise each call once or in one order; panics and log.Fatal paths in clean-up code only appear for particular sequences (solve twice after a level-0 conflict, empty clause, duplicate literals).",
 ["gini.go","internal/xo/s.go","internal/xo/cdb.go","internal/xo/guess.go","internal/xo/phases.go"],
 [("cleanup after solve","internal/xo/s.go cleanupSolve"),("level-0 conflict flag","internal/xo/cdb.go Bot"),("heap of candidate variables","internal/xo/guess.go")])
p("S04","The final conflict explains the failed assumptions",
 "After a solve under assumptions answers -1, the literals returned as the reason all belong to that solve's assumptions, and the clauses together with just those literals are unsatisfiable; without assumptions the reason is empty. Asking for the reason disturbs neither the caller's slice contents nor later solves.",
 ["inputs","histories"],"every clause set, assumption list (duplicates and opposite literals included) and solve history",
 "Tests check one or two fixed cores; sufficiency of the core quantifies over all assignments.",
 ["internal/xo/s.go"],[("final conflict analysis","internal/xo/s.go Why, final"),("assumption handling","internal/xo/s.go Assume, makeAssumptions")])
p("S05","Assumptions last for exactly one solve",
 "Literals assumed before a solve constrain that solve only: a later solve behaves exactly like a fresh solver given the same clauses and only the assumptions made since, and a solver that answered -1 only because of assumptions can still answer 1. Assuming leaves the caller's argument slice unchanged.",
 ["inputs","histories"],"every sequence of assume, add and solve rounds",
 "Leaks of an assumption into level 0 (or a unit learned under assumptions) need a specific formula and a following query to show.",
 ["gini.go","internal/xo/s.go"],[("assumption levels","internal/xo/s.go makeAssumptions"),("clean-up","internal/xo/s.go cleanupSolve")])
p("S06","Test and Untest scopes nest and propagate soundly",
 "Test answers 1 only with a model, -1 only if clauses and all assumptions in open scopes are contradictory, and every literal it appends is implied by them; Untest removes exactly the assumptions of the innermost scope and restores the previous state. Clauses and solves inside or after scopes see exactly the assumptions of the scopes still open.",
 ["inputs","histories"],"every formula and every properly nested sequence of assume, test, untest and solve",
 "The tests use one or two scopes on random formulas; nesting combined with solves, propagation at level 0 and contradictory assumptions is a combinatorial space of histories.",
 ["internal/xo/s.go","gini.go"],[("test levels","internal/xo/s.go Test, Untest"),("trail rollback","internal/xo/trail.go Back")])
p("S07","Reasons of implied literals really imply them",
 "For a literal reported as propagated by Test, the reasons returned are literals that are true at that point, and the clauses added together with the reasons imply the literal; following reasons from an implied literal ends in assumptions or clause-implied facts and never loops.",
 ["inputs","histories"],"every formula, scope nesting and implied literal",
 "One existing test looks at one chain.",
 ["internal/xo/s.go"],[("reason extraction","internal/xo/s.go Reasons"),("reason bookkeeping","internal/xo/trail.go, internal/xo/vars.go")])
p("S08","Activation literals switch exactly their clauses",
 "A clause closed with an activation literal constrains a solve exactly when that literal is assumed, and never after the literal is deactivated; deactivating one literal leaves every other clause, active or not, in force. Literals recycled after deactivation behave like new ones and never revive the old clause.",
 ["inputs","histories"],"every history of adding, activating, assuming, solving, deactivating and reusing activation literals",
 "Revival of a removed clause or loss of an innocent clause requires a particular recycle history and learned clauses mentioning the literal.",
 ["internal/xo/active.go","internal/xo/cdb.go","gini.go"],[("activation occurrence lists","internal/xo/active.go"),("clause removal and unlinking","internal/xo/cdb.go")])
p("S09","A solver copy is equivalent and independent",
 "A copy taken between solves answers every later query as the original would have, with genuine models and cores, and no operation on one of the two, in any order or concurrently, changes an answer of the other.",
 ["inputs","histories"],"every history before the copy and every pair of histories after it",
 "Aliased slices only show when both sides grow or compact the same structure in a particular order.",
 ["gini.go","internal/xo/s.go","internal/xo/cdb.go","internal/xo/cdat.go","internal/xo/vars.go","internal/xo/cgc.go","internal/xo/guess.go","internal/xo/active.go"],
 [("deep copies","internal/xo/*.go Copy methods")])
p("S10","Clause storage survives growth and compaction",
 "Removing and compacting clauses during or between solves, growing the clause storage and growing the variable arrays never lose, alter or resurrect a clause the user added, of any length, and keep every internal reference pointing at the clause it pointed at. Answers are the same as if no compaction had happened.",
 ["inputs","histories"],"every sequence of clause additions (of any length), removals and compactions",
 "Compaction thresholds are reached in tests only by long runs whose answers are checked in aggregate; clause lengths around the packing boundaries are not covered.",
 ["internal/xo/cdat.go","internal/xo/cdb.go","internal/xo/cgc.go","internal/xo/chd.go","internal/xo/watch.go"],
 [("compaction and relocation","internal/xo/cdat.go CompactReady, Compact"),("clause header packing","internal/xo/chd.go"),("watch lists","internal/xo/watch.go"),("victim selection","internal/xo/cgc.go")])
p("S11","Written problems are equivalent to what was added",
 "The DIMACS text a solver writes at any moment has a header matching its body, reads back without error, and is satisfied by exactly the assignments of the user's variables that satisfy the clauses added. Every clause in it, learned ones included, is implied by the clauses added.",
 ["inputs","histories"],"every clause set and solve history before writing",
 "The only test writes one formula; implication of all learned clauses quantifies over assignments and search histories.",
 ["gini.go","internal/xo/s.go","internal/xo/cdb.go","internal/xo/derive.go"],[("dump of clauses and units","internal/xo/cdb.go Write"),("learned clauses","internal/xo/derive.go")])
p("S12","Asynchronous control neither loses nor invents a result",
 "However a solve running in its own goroutine is tried, tested, paused, resumed, stopped or waited for, in any schedule, every call returns; a non-zero result is the correct answer of that solve, is reported to the caller exactly when it is available, and the solver is usable for correct further solving afterwards. A limited solve answers 0 or the correct answer, and never limits a later one.",
 ["schedules","inputs","histories"],"every interleaving of the solving goroutine and the controlling one, every timing of deadlines, and every legal sequence of control calls",
 "Tests run a few timings; deadlocks and lost results need the result to become ready exactly inside a control call.",
 ["internal/xo/ctl.go","internal/xo/s.go","gini.go"],[("control channels","internal/xo/ctl.go"),("polling in the search loop","internal/xo/s.go Solve"),("deadline","internal/xo/s.go Try")])
p("L01","Circuit gates compute their Boolean functions",
 "The literals returned by the circuit builders (and, or, xor, implication, if-then-else, n-ary and/or, negation and constants) evaluate, under every valuation of the inputs, to the corresponding function of their operands' values, for every operand choice including constants, repeated and opposite operands.",
 ["inputs"],"every circuit shape and every input valuation",
 "Tests check one gate at a time with distinct inputs; simplification rules and structural hashing interact over whole circuits.",
 ["logic/c.go"],[("simplifying constructors","logic/c.go And, Or, Xor, Choice, Implies, Ands, Ors"),("structural hashing","logic/c.go")])
p("L02","Structural hashing is canonical and never merges different gates",
 "Building the same and-gate again, operands in either order, returns the same literal, and two and-gates with different operands never share a literal; this continues to hold after the circuit grows past any capacity and in copies of it, which stay independent of the original.",
 ["inputs","histories"],"every sequence of gate constructions, every capacity boundary, and copies taken at any time",
 "The rehash path and the copy path are only crossed by particular node counts and hash collisions.",
 ["logic/c.go"],[("hash table and chaining","logic/c.go And, newNode, grow"),("copy","logic/c.go Copy")])
p("L03","Bit-parallel evaluation agrees with plain evaluation",
 "Evaluating a circuit on 64 valuations at once gives, in each of the 64 lanes and for every node and constant, the value single evaluation gives on that lane's valuation, whatever the value slices contained beforehand.",
 ["inputs"],"every circuit, every valuation, every lane",
 "Tests compare random samples of lanes on random circuits; a single wrong lane or constant is missed.",
 ["logic/c.go"],[("evaluation","logic/c.go Eval, Eval64")])
p("L04","CNF conversion preserves the circuit's meaning",
 "The clauses produced for a circuit or for the cone of given roots (all at once, or incrementally since the last call) are satisfied by an assignment of the circuit's variables exactly when it gives every gate in the converted part its function's value. Each incremental call yields precisely what is missing, so that the union is complete for all requested roots.",
 ["inputs","histories"],"every circuit, root set, sign and incremental call sequence",
 "The tests only compare satisfiability on few circuits; a missing clause only matters for particular roots in a particular call order.",
 ["logic/c.go"],[("CNF emission","logic/c.go ToCnf, ToCnfFrom, CnfSince")])
p("L05","Sorting networks count",
 "For a cardinality network over any list of literals, the literal for at-least-k, at-most-k, less-than-k and greater-than-k is true under a valuation exactly when the number of true literals in the list satisfies that comparison, for every k including those outside 0..n.",
 ["inputs"],"every number of inputs, every bound k, every input valuation",
 "Tests check a few sizes with random valuations; sizes off powers of two and boundary bounds differ.",
 ["logic/card.go"],[("sorting network","logic/card.go")])
p("L06","Sequential unrolling agrees with step-by-step simulation",
 "For a sequential circuit with latches, the literal of a node at time t in its unrolling has, under every sequence of inputs, the value that node has at step t of simulating the circuit from its initial state (free for uninitialised latches).",
 ["inputs","histories"],"every sequential circuit, depth, query order and input sequence",
 "Tests check one counter; caching between queries at different depths and initial values are not quantified.",
 ["logic/s.go","logic/roll.go"],[("latches","logic/s.go"),("unrolling","logic/roll.go At")])
p("A01","ASCII AIGER round trips preserve the design",
 "Writing any sequential circuit with its inputs, outputs, latches, bad states, constraints, justice and fairness in ASCII AIGER and reading it back gives a design with the same ports in the same order and the same behaviour, initial values and names included; a copy of a design is such a design, independent of the original. Reading any well-formed ASCII text gives the design it describes.",
 ["inputs"],"every design within the format, every numbering and order of definitions in the text",
 "Tests round trip one or two designs and compare little of the result; constants, negated ports, reset values and section order vary independently.",
 ["logic/aiger/aiger.go"],[("ASCII writer","logic/aiger/aiger.go WriteAscii"),("ASCII reader","logic/aiger/aiger.go ReadAscii")])
p("A02","Binary AIGER round trips preserve the design",
 "Writing any sequential circuit in binary AIGER and reading it back gives a design with the same ports in the same order and the same behaviour, initial values and names included. Reading any well-formed binary file gives the design it describes.",
 ["inputs"],"every design within the format, including deltas longer than one byte",
 "Delta coding, renumbering and reset values are exercised by one tiny example.",
 ["logic/aiger/aiger.go"],[("binary writer","logic/aiger/aiger.go WriteBinary"),("binary reader","logic/aiger/aiger.go ReadBinary"),("delta code","logic/aiger/aiger.go")])
p("A03","AIGER readers reject malformed input gracefully",
 "For every byte string and however it is split by the underlying reader, reading AIGER either returns an error or a well-formed design with the announced number of ports, whose literals are all defined; it never panics, never loops forever, and never reports success when the input ended or failed before everything announced was read.",
 ["inputs","fault_sequences"],"every byte string, every truncation point and every reader error point",
 "Tests feed only well-formed files.",
 ["logic/aiger/aiger.go"],[("header and section parsing","logic/aiger/aiger.go")])
p("D01","DIMACS CNF reading delivers exactly the clauses in the text",
 "Reading a well-formed CNF text hands over the header's counts and precisely its clauses in order, and then reports the end of the text, for any placement of comments, blank lines, white space and line breaks, and however the underlying reader splits the bytes.",
 ["inputs"],"every layout of every CNF and every chunking of the input",
 "Tests read a few fixed layouts in one chunk; comment filtering and buffering act at chunk and line boundaries.",
 ["dimacs/cnf.go","dimacs/int.go","dimacs/cfilt.go","dimacs/vis.go"],[("comment filter","dimacs"),("integer scanner","dimacs"),("CNF reader","dimacs ReadCnf")])
p("D02","Incremental CNF reading delivers clauses and queries in order",
 "Reading an incremental CNF text hands over precisely its clauses and assumption lines, in order and not confused with one another, for any layout and chunking.",
 ["inputs"],"every layout of every icnf text and every chunking",
 "One fixed example is tested.",
 ["dimacs/icnf.go","dimacs/int.go"],[("icnf reader","dimacs ReadICnf")])
p("D04","Reading a solver's output delivers its verdict and values",
 "Reading a well-formed solver output hands over the verdict its solution line states and precisely the literals of its value lines, however many value lines there are and however they are laid out, commented or split by the underlying reader.",
 ["inputs"],"every layout of every solver output and every chunking",
 "The reader of solver output has no test.",
 ["dimacs/solve.go","dimacs/int.go","dimacs/cfilt.go"],[("solver output reader","dimacs ReadSolve")])
p("D03","Malformed DIMACS is an error, never a panic or a wrong formula",
 "For every byte string the DIMACS readers terminate without panicking, and when the text contains a number that cannot be represented, a stray character, or a reading error they report an error instead of handing over literals that are not in the text.",
 ["inputs","fault_sequences"],"every byte string and every reader error point",
 "Tests feed well-formed input; wrap-around and lone signs are never tried.",
 ["dimacs/int.go","dimacs/cnf.go","dimacs/icnf.go","dimacs/solve.go"],[("integer scanner","dimacs readInt"),("error propagation","dimacs")])
p("C01","The wire integer coding is lossless",
 "Every sequence of 32 bit numbers written through the crisp protocol layer is read back as the same sequence, however the transport splits the bytes and whatever buffer boundaries fall inside a number; malformed encodings are reported as errors rather than as other numbers.",
 ["inputs","fault_sequences"],"every number sequence, split of the byte stream and read error point",
 "Buffer boundaries and the five-byte encodings are hit only by particular lengths.",
 ["crisp/vu32io.go"],[("variable length coding and buffering","crisp")])
p("C02","A remote solver answers like a local one",
 "A crisp client session gives, for every sequence of add, assume, solve, model, failed-assumption and end requests, the answers a local solver gives for the same sequence; requests the protocol has no answer for at that point are refused with its error code; and every request is answered rather than left hanging, with requests sent one by one or ahead of the answers, with solves stopped or tried at any moment, and with one session or several. Addresses and the operation codes of extensions keep their meaning: an address is written as it was parsed, and extensions never share an operation code with each other or with the protocol.",
 ["inputs","histories","schedules"],"every request sequence and every interleaving of client and server",
 "One scripted session is tested.",
 ["crisp/client.go","crisp/handler.go","crisp/netsolve.go","crisp/server.go","crisp/proto.go","crisp/exts.go","crisp/addr.go"],[("client","crisp/client.go"),("server handler","crisp/handler.go"),("background solving","crisp/netsolve.go"),("extensions","crisp/exts.go"),("addresses","crisp/addr.go")])
p("X01","Assumption exchange answers each accepted request once, correctly",
 "When queries are distributed over several solving units, every accepted request receives exactly one response carrying its own identity and the correct result, whatever the order of completion, limits and shutdown, and shutdown always completes.",
 ["schedules","inputs"],"every interleaving of requesters, units and shutdown",
 "Tests run a handful of requests on real timing.",
 ["ax/ax.go"],[("dispatcher and units","ax")])
p("Z01","Literal, variable and DIMACS encodings are consistent bijections",
 "For every variable and sign, building a literal and taking its variable, sign, negation and DIMACS number are mutually inverse; negation is an involution that preserves the variable, and no two distinct literals share an encoding.",
 ["inputs"],"every 32 bit variable and literal value",
 "Tests check sample values.",
 ["z/lit.go","z/var.go"],[("encoding","z")])
p("Z02","Hidden inner variables never collide with user variables",
 "When user variables and hidden inner variables are allocated, freed and mapped in any order, the mapping from outer to inner is injective and invertible, inner variables are never visible as user variables, and a solver wrapped this way gives the same answers and values for user literals as the unwrapped one.",
 ["inputs","histories"],"every sequence of allocations, frees, mappings and solver calls",
 "Tests perform one sequence.",
 ["z/dv.go","sv.go"],[("mapping","z Vars"),("wrapper","inter")])
p("G01","Generated problems mean what they claim",
 "Each problem generator emits complete clauses over the variables its documentation names, and the assignments satisfying them are exactly the intended objects: placements of pigeons in holes, partitions into parts, partitions with no Pythagorean triple inside a part, cycles of implications, and colourings of a random simple graph of the given size. Random 3-CNF clauses, graphs and cubes have the numbers of clauses, edges and literals asked for, over distinct variables or nodes.",
 ["inputs"],"every size parameter and every random choice",
 "The tests use generators as input to the solver and never check what they generate.",
 ["gen/gen.go","gen/color.go","gen/pt.go","gen/rands.go"],[("generators","gen")])
p("P01","The gini command reports what the solver found",
 "For every input file, standard input and flags the gini command prints one competition-format verdict for each problem it can read (one for each query of an incremental one, in order), with every variable's value in a genuine model or the failed assumptions when asked for, however many there are; with -satcomp it exits with the status which matches. Inputs it can't read get no verdict, don't crash it and don't keep it from the other inputs.",
 ["inputs"],"every file content and flag combination",
 "There are no tests of the command.",
 ["cmd/gini/main.go","cmd/gini/icnf.go"],[("flags, formats and output","cmd/gini/main.go"),("incremental inputs","cmd/gini/icnf.go")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import sys
try:
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P:
        jsonschema.validate(x,sch)
        import os
        for fl in x["anchors"]["files"]:
            if not os.path.exists("/repo/"+fl): print("missing",x["id"],fl)
except ImportError: pass
print(len(P))
