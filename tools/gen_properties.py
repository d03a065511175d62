#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

GEN="src/solver/genetic/genetic.rs"; POP="src/solver/genetic/population.rs"; IND="src/solver/genetic/individual.rs"
SPL="src/solver/genetic/split.rs"; DEC="src/solver/genetic/decomposition.rs"; LS="src/solver/improvement/local_search.rs"
LL="src/solver/improvement/linked_list.rs"; PRE="src/solver/improvement/preprocess.rs"; MV="src/solver/improvement/moves/"
RR="src/solver/improvement/ruin_recreate/"; EV="src/solver/evaluate.rs"; CTX="src/solver/context.rs"; HIS="src/solver/history.rs"
MAT="src/models/matrix.rs"; PRB="src/models/problem.rs"; SEC="src/models/circle_sector.rs"; CFG="src/config.rs"; CLI="src/cli.rs"
PAR="src/utils/parser.rs"; SER="src/utils/serializer.rs"; RND="src/utils/random.rs"; CMP="src/utils/comparison.rs"; MAIN="src/main.rs"; SOL="src/solver/solver.rs"

p("C01","Every reported solution is a valid CVRP solution with its true cost",
 "Whatever the instance, configuration, seed and stopping point, every solution the solver reports as its best visits each customer exactly once and nothing else, loads no vehicle beyond its capacity, and uses no more routes than the fleet the run was set up with. The cost reported with it equals the total length of those routes under the configured distance rule, with no penalty in it. If the run found no feasible solution it reports none.",
 ["inputs","configurations","histories"],"all instances (size, geometry, ties, demands, explicit matrices), all algorithm configurations, seeds, and numbers of iterations before the stop",
 "The 7 unit tests compare floats and matrix cells; none runs the solver, so no instance x configuration x seed combination is reached at all.",
 [GEN,HIS,EV,RR+"mod.rs",DEC,LS,SPL,MAIN],[("best update guarded by feasibility",GEN+":update_best"),("best update inside ruin & recreate",RR+"mod.rs:update_best"),("evaluation",EV)],
 [("search history","sequence of incumbents, last one with its routes",HIS)],["search history after every step","best individual of the genetic algorithm","solution file of the binary"])

p("C02","The incumbent only ever improves, and the final report is the best one found",
 "During a run the sequence of reported best costs strictly decreases, its time stamps never go back, and only the latest report carries routes. At the end the last report is at least as good as every feasible solution still held anywhere by the search (populations, the current individual, the algorithm's own best individual), and the algorithm's own best individual agrees with it. Neither a restart of the population nor a re-scaling of the penalty loses or worsens it.",
 ["histories","inputs","configurations"],"all run prefixes (the state is observed after every step), including restarts, elite education and penalty changes",
 "Unit tests contain no run, hence no history of incumbents, restart or penalty change.",
 [GEN,HIS,RR+"mod.rs",DEC],[("current best reset at restart, history kept",GEN+":reset"),("best_cost compare",RR+"mod.rs:update_best")],
 [("best_cost","cost of last incumbent",HIS)],["search history entries","populations","best individual"])

p("C03","The solution file is exactly the final best solution, in CVRPLIB form",
 "When a run ends, the solution file holds exactly the non-empty routes of the final best solution, numbered from 1 without gaps, each a list of customer numbers in visiting order with the depot left out, followed by one line with the rounded cost. Whatever the file held before is gone, and if no feasible solution was found the file is empty. If no output path is configured nothing is written.",
 ["inputs","histories","configurations"],"all solutions (empty routes anywhere, any number of routes, fractional costs) and all prior contents of the output path",
 "No test writes a solution.",
 [SER,HIS,MAIN],[("open with truncate, print last entry",SER),("numbering of non-empty routes",HIS+":Display")],[],["bytes of the output file"])

p("C04","A well-formed CVRPLIB instance is read exactly as written",
 "For every well-formed instance file, coordinate-based or explicit lower-row with coordinates, the solver's problem has the stated number of nodes, node numbers and coordinates in file order, the stated demands and capacity as numbers (fractions and exponents included), the first node as depot, and, for an explicit file, exactly the stated lower-row distances. The result does not depend on how the entries of a matrix are broken into lines, on blanks versus tabs, spaces around the colons, leading or trailing white space, Windows line ends, comment text, or the order of header lines and sections. An unknown edge weight type or format is refused, never solved under another rule.",
 ["inputs"],"all instance contents times all textual layouts of the same content",
 "No test parses a file.",
 [PAR],[("split on blank, tab, colon",PAR+":read_file"),("section search",PAR+":parse_coords, parse_demands, parse_lower_row_matrix"),("type enums",PAR)],[],["parsed problem and matrix","distances computed from them"])

p("C05","Distances are symmetric, rounded as configured, same in every storage mode",
 "The distance between two nodes is the Euclidean distance of their coordinates, or the given entry for an explicit matrix, rounded to the nearest integer exactly when rounding is on; it is symmetric, zero from a node to itself, and the same whether distances are computed beforehand or on demand, read singly or as a row. A sub-problem built from a selection of nodes sees exactly the parent's distances and demands between those nodes. The largest distance the solver reports for a pre-computed matrix is the true maximum.",
 ["inputs","configurations"],"all coordinates/explicit matrices, rounding on/off, both storage modes, all node selections",
 "One unit test reads a few cells of one hand-made matrix; no rounding, lazy mode, explicit input or sub-problem is tested.",
 [MAT,PRB,CTX],[("builder",MAT+":DistanceMatrixBuilder::build"),("lazy branch",MAT+":DistanceMatrix::get, get_vec"),("sub matrix",MAT+":from_mapping"),("size limit",MAT+":MatrixProvider::new")],
 [("storage","n x n distances or empty in lazy mode",MAT)],["distance queries"])

p("C06","Neighbour lists hold the nearest customers, in order",
 "For every node the list of neighbours used by the search holds, in non-decreasing order of distance, the nearest other customers, as many as the list limit (200) and the instance size allow; it never contains the depot, the node itself, or a customer twice, and no customer left out is nearer than one in the list. The same holds for the lists of a sub-problem.",
 ["inputs","configurations"],"all instances, with ties and duplicates, below and above the list limit, in both storage modes, and all node selections",
 "One unit test checks one small matrix, far below the limit.",
 [MAT],[("lazily sorted prefix",MAT+":CorrelationMatrix::new")],[("storage","neighbour lists",MAT)],["neighbour list of every node"])

p("C07","Evaluation equals a from-scratch recomputation",
 "For any set of routes, the evaluation gives each route's length and overload, the penalised cost (length plus penalty times positive overload, summed over routes), feasibility (no route over capacity beyond tolerance), and every customer's predecessor and successor, exactly as a naive recomputation from the instance does. Evaluating a solution again, or after a different one, gives the same answer, and sorting the routes of a solution changes neither the routes themselves nor its cost, while its giant tour becomes the concatenation of its routes.",
 ["inputs","histories"],"all instances, penalties and route sets (empty routes anywhere, overloaded, single customer), evaluated in any order on reused objects",
 "No test evaluates a solution.",
 [EV,IND],[("single pass over routes",EV+":evaluate"),("angle sort and genotype rewrite",IND+":sort_routes")],[("evaluation","costs and links of the current routes",EV)],["evaluation fields after evaluate"])

p("C08","Splitting a giant tour is lossless and optimal",
 "Cutting a giant tour into routes yields consecutive segments of the tour that together cover it, in order, with no customer lost or repeated, padded with empty routes to the fleet size, also when the fleet is smaller than the demands call for. With an unlimited fleet the penalised cost is the minimum over all ways to cut the tour; when that needs more than the allowed number of routes the solver cuts into at most that many, at the minimum penalised cost. The linear-time algorithm minimises over all cuts, the quadratic one over cuts whose loads stay within the configured capacity factor whenever such a cut exists.",
 ["inputs","configurations"],"all giant tours, instances, penalties, fleet limits and both split algorithms",
 "No test runs a split.",
 [SPL],[("linear split with dominance queue",SPL+":split"),("limited fleet layers",SPL+":split_limited_fleet"),("fallback",SPL+":run")],[("path_cost, predecessors","shortest path labels",SPL)],["routes after the split","evaluated cost"])

p("C09","A move's predicted gain is the cost change it causes; tours stay intact",
 "For every neighbourhood move of the local search and every pair of positions it may be tried on, the predicted change equals the actual change of the penalised cost when the move is carried out, a move that reports a non-zero change performs its documented rearrangement and nothing else, and a move that does not apply reports no gain. After any sequence of moves the linked routes still hold every customer exactly once between their own two depots, and all cached data (positions, cumulative lengths and loads, route length, load, overload, cost, angular sector, set of empty routes) equal a recomputation.",
 ["inputs","histories"],"all instances, solutions, penalties, pairs of nodes (same route, adjacent, depot, empty route) and sequences of moves",
 "No test performs a move.",
 [MV+"relocation.rs",MV+"swap.rs",MV+"two_opt.rs",LL,LS],[("delta / perform pairs",MV),("update_route",LS),("pointer reversal",LL)],
 [("linked list nodes","predecessor, successor, route, position, cumulative data",LL)],["delta before and routes after every perform"])

p("C10","SWAP* carries out the best exchange it promises to find",
 "For a pair of routes, the exchange search picks a move of least cost among all swaps of two customers between the routes with free re-insertion (those whose removal and penalty gain alone do not already rule them out) and all single relocations between them, and carries it out exactly when it reduces the penalised cost. The cost really falls by the amount of the best such move, all other routes are untouched, and remembered insertion places from earlier moves never make the result differ from a fresh computation.",
 ["inputs","histories"],"all instances, route pairs, penalties, and histories of earlier moves that fill the insertion cache",
 "No test runs the exchange.",
 [MV+"swap_star.rs",PRE,LS],[("three best insertions with time stamps",LS+":preprocess_insertions"),("insertion with removal",LS+":cheapest_insert_and_removal"),("selection",MV+"swap_star.rs:run")],
 [("best_inserts","three cheapest places per node and route, with time stamp",LS)],["routes and cost before and after"])

p("C11","Local search ends, never worsens a solution, and loses no customer",
 "Local search on any solution stops, and the result is a complete solution (each customer exactly once, fleet size unchanged, giant tour and routes in agreement) whose reported evaluation is its true evaluation. Its penalised cost under the penalty used in the search is never higher than before. What an earlier search left in the search object has no influence beyond the random choices.",
 ["inputs","configurations","histories"],"all instances, starting solutions, penalties, granularities, subsets of enabled moves, repeated use of one search object",
 "No test runs the local search.",
 [LS,LL,MV],[("improvement threshold",LS+":search"),("load / update",LS+":load_individual, update_individual")],[],["individual before and after a run"])

p("C12","Local search stops only in a local optimum of its neighbourhood",
 "When local search stops, no enabled move between a customer and one of its granular neighbours, no enabled move placing a customer (or a tail) at the start of a neighbour's route when that neighbour is first there, no enabled move of a customer into an empty route, and, if enabled, no SWAP* exchange between two routes whose angular sectors overlap would reduce the penalised cost by more than the tolerance. On the way it makes only improving moves that are enabled, between granular neighbours: with no move enabled the solution stays as it is.",
 ["inputs","configurations"],"all instances, starting solutions, penalties, granularities and subsets of enabled moves",
 "No test runs the local search, let alone searches the neighbourhood of its result.",
 [LS,MV+"mod.rs"],[("re-test rule by time stamps",LS+":search"),("loop until no improvement",LS+":search")],[("last_tested, last_modified","time stamps that let pairs be skipped",LS)],["neighbourhood of the result, enumerated by a reference model"])

p("C13","Ruin and recreate keeps every customer and its books straight",
 "Each ruin takes a non-empty set of customers out of the solution whenever there are at least two, in strings of at most the configured maximum length and at most one per route, without touching the order of the rest; each recreate puts every removed customer back exactly once, into the cheapest place of an eligible ruined route with room if there is one, and otherwise into the place of least penalised cost, opening no more routes than the fleet. After any number of rounds the stored routes, lengths, overloads, locations and cost equal a recomputation.",
 ["inputs","histories","configurations"],"all instances, solutions, ruin sizes, string lengths, penalties and sequences of rounds",
 "No test runs a ruin or a recreate.",
 [RR+"ruin.rs",RR+"recreate.rs",RR+"node.rs",RR+"mod.rs"],[("string removal",RR+"ruin.rs:ruin_route"),("greedy insertion",RR+"recreate.rs:run"),("incremental route update",RR+"node.rs")],
 [("locations","route and position of every customer",RR+"mod.rs")],["solution after each ruin and each recreate"])

p("C14","Annealed search keeps its best, and accepts and cools as specified",
 "As long as the penalty stays the same, the ruin-and-recreate search returns a solution at least as good as the one it was given, and the best it has kept is never worse than any solution it accepted. A candidate is accepted exactly when its cost is below the current cost minus temperature times the logarithm of a uniform number, so at temperature zero the current solution never gets worse. The iteration-based temperature starts at the start temperature, follows the documented decay without ever rising, ends after exactly the set number of iterations, and a reset (of an iteration- or time-based schedule) restores the starting state.",
 ["inputs","histories","configurations"],"all instances, starting solutions, temperatures, iteration budgets and random streams",
 "One stable test checks three points of one cooling curve; acceptance, best-keeping and reset are untested.",
 [RR+"schedule.rs",RR+"mod.rs"],[("acceptance",RR+"schedule.rs:accept"),("cooling",RR+"schedule.rs:update"),("best kept on acceptance",RR+"mod.rs:search")],[("temp, iteration","state of the schedule",RR+"schedule.rs")],["costs before/after each step","acceptance decisions with a replayed random stream"])

p("C15","Broken-pairs distance and clone detection agree with their definition",
 "The distance between two solutions counts the customers whose successor is neither the successor nor the predecessor of that customer in the other solution, plus the route-first customers that are neither first nor last in a route of the other. It is zero between a solution and itself or any copy with routes reordered or reversed, it lies between zero and twice the number of customers, and whenever some customer is adjacent to two others in one solution and to neither in the other it is positive. A solution that joins the population is taken for a clone, and left out, when it is at distance zero from a member, and never when it is at a positive distance from all of them.",
 ["inputs"],"all pairs of solutions of all instances, with empty routes anywhere",
 "No test computes a distance between solutions.",
 [IND,EV],[("broken pairs",IND+":calculate_broken_pairs_distance")],[],["distance of pairs of evaluated solutions"])

p("C16","Population management keeps its promises after every insertion",
 "After every insertion and removal each sub-population holds only individuals of its kind (feasible or not), ordered by penalised cost, never an individual at distance zero from another that was inserted into it, and never as many as the configured maximum; reaching the maximum cuts it back to exactly the configured minimum. The best member is never removed once it is in, each cut removes the clone or the individual with the worst biased fitness, and biased fitness equals rank by cost plus weighted rank by average distance to the closest individuals, as defined. Parents are tournament winners of that fitness.",
 ["histories","configurations","inputs"],"all sequences of insertions (clones, ties, feasible and infeasible) and all population parameters",
 "No test builds a population.",
 [POP,IND],[("binary insertion",POP+":add_individual"),("natural selection",POP+":natural_selection"),("biased fitness",POP+":update_fitness"),("tournament",POP+":tournament")],
 [("diversity","sorted distances to all other members",POP),("population","members by cost",POP)],["population after each operation"])

p("C17","Every individual of the genetic algorithm is a complete, consistent solution",
 "After every step of the genetic algorithm, every individual in the populations and the current individual is a complete solution (each customer exactly once, giant tour equal to the concatenated routes, exactly the fleet size of routes), its stored evaluation is its true evaluation under the current or an earlier penalty (lengths, loads, links and feasibility exact), and it sits in the sub-population that matches its feasibility. Recombination keeps a contiguous part of the first parent in place and fills the rest in the order of the second parent.",
 ["histories","inputs","configurations"],"all instances, configurations, seeds and numbers of steps",
 "No test runs the algorithm.",
 [GEN,POP,SPL],[("OX crossover",GEN+":crossover_ox"),("education pipeline",GEN+":educate")],[],["populations and current individual after every step"])

p("C18","Deterministic runs are reproducible",
 "With deterministic mode on, two runs with the same instance, configuration and seed produce the same sequence of incumbents, the same populations and the same solution file, in the same process or in different ones, whatever else ran before. This holds for every algorithm stage (initialisation, crossover, local search, ruin and recreate, elite education, decomposition) as long as stopping is by iterations.",
 ["inputs","configurations","schedules"],"all instances, configurations and seeds; run twice in one process and across processes",
 "No test runs the solver, and hash-seed dependence only shows when two processes are compared.",
 [RND,CTX,LS,RR+"mod.rs",DEC,POP],[("seeded generator and hash state",RND),("hash containers",LS+", "+RR+"mod.rs, "+DEC)],[("rng","seeded generator",RND)],["fingerprint of the run: history, populations, random stream position"])

p("C19","Decomposition is faithful and never loses ground",
 "A decomposition takes a set of whole routes out of the global solution together with exactly their customers, and the sub-problem has their demands, coordinates and the parent's distances. Putting the improved sub-solution back yields a complete global solution with the untouched routes intact, exactly the fleet size of routes, and a cost equal to its true cost; a feasible solution stays feasible and never gets worse, a feasible sub-solution never gets worse, and the overload of the whole never grows. Small sub-problems and small whole problems are solved to optimality on all but a small fraction.",
 ["inputs","configurations","histories"],"all instances, global solutions (feasible or not), sub-problem sizes and improved sub-solutions",
 "No test decomposes anything; the smallest instance that triggers it has thousands of customers.",
 [DEC,CTX,PRB,MAT],[("selection by neighbours of a seed customer",DEC+":decompose_global"),("mapping back",DEC+":finish")],[("mapping","sub-problem index to global customer",DEC)],["decomposition before run, after finish"])

p("C20","Configuration is defaults, patched by the file, overridden by given arguments",
 "The effective configuration is the documented default with exactly the keys present in the configuration file replaced by their values, and then exactly the arguments given on the command line on top; an argument that is not given never overrides the file, and a key the solver does not know is ignored. In particular an explicit true or false for rounding (-r), the time limit (-t), the number of iterations without improvement (-i) and the output path (-o) each take effect as given. A file that is no mapping, or gives a key a value of the wrong type, is refused.",
 ["configurations","inputs"],"all subsets of keys with all values, all subsets of arguments",
 "No test loads a configuration or parses arguments.",
 [CFG,CLI,MAIN],[("key-wise patch",CFG+":update"),("argument overlay",CFG+":update_from_args"),("argument parser",CLI)],[],["configuration after patching","behaviour of the binary"])

p("C21","Runs stop when told to, and not before",
 "A run with an iteration limit performs exactly that many generations (rounds of decomposition in a decomposed run) unless time runs out first, a limit of zero generations performs none, and a zero time limit ends the run at once; with a time limit the run ends at the first step after the limit has passed, and not before. Without such a limit each step ends, and the run goes on. The population is restarted exactly when more than the configured number of generations have passed without an improvement, and then a full new initial population is built.",
 ["configurations","histories","inputs"],"all iteration limits, restart limits, population sizes, instances",
 "No test runs the solver.",
 [CTX,GEN,SOL],[("terminate",CTX),("restart",GEN+":iterate, reset")],[("iteration","generations done",CTX)],["iteration counters and terminated flag step by step"])

p("C22","No valid input makes the solver crash or touch memory it does not own",
 "For every valid instance with at least one customer, including very small ones, single points, zero distances, zero demands and demands that no vehicle can serve, and for every sensible configuration, the solver runs to its stop without panicking, hanging, reading or writing outside its own memory, or using freed memory.",
 ["inputs","configurations","histories"],"all valid instances (down to one customer), all parameter values, all move sequences; run under an address sanitizer",
 "The tests never run the solver; raw pointers and unchecked matrix accesses silently read neighbouring memory when an index is wrong.",
 [MAT,LS,LL,MV,GEN],[("raw matrix storage",MAT+":Matrix"),("raw pointer lists",LL),("granularity",LS+":search")],[],["sanitizer report, panics, CPU-time guard"])

p("C23","Angular sectors enclose their routes, and overlap is decided correctly",
 "The sector kept for a route encloses the polar angle of every customer of the route, is the same as extending by the customers one by one by the smaller of the two arcs, and an angle counts as enclosed exactly when it lies on the arc from start to end. Two sectors overlap exactly when some angle lies in both, whichever is asked first, also across the zero angle.",
 ["inputs","histories"],"all sequences of angles (0..65535), all pairs of sectors, all coordinates",
 "No test touches a sector.",
 [SEC,PRB,LS],[("modular arithmetic",SEC),("angle of a node",PRB+":get_angle")],[],["sector after each extension, overlap of pairs"])

p("C24","No reported cost beats the optimum, and tiny instances are solved to optimality",
 "For every instance small enough to solve exactly, no solution the solver reports costs less than the true optimum, and, given generations enough for the penalty to rise, the solver does report a feasible solution whenever one exists. With a moderate number of generations it reaches the optimum on all but a small fraction of such instances, and of larger ones that fall apart into distant clusters small enough to solve.",
 ["inputs","configurations"],"all instances with up to about nine customers, every algorithm mode and seed",
 "No test solves an instance; only an exact reference can tell a wrong or missed optimum.",
 [GEN,SPL,LS,RR+"mod.rs",CTX],[("whole search",GEN)],[],["final cost against exact dynamic programming"])

p("C25","The capacity penalty steers towards the target and stays within its bounds",
 "The penalty starts at the largest distance over the largest demand (100 when the distances are computed on demand), within [0.0001, 10000]. At every penalty update during the generations the penalty is multiplied by the increase factor when the share of feasible individuals among the last hundred initial individuals and children (feasible ones stand in for those still missing) is more than five points below the target, by the decrease factor when it is more than five points above, and is otherwise unchanged, always within its fixed bounds; updates come at exactly the configured interval of generations. Infeasible individuals are then re-evaluated under the new penalty and re-ordered, and feasible costs never depend on the penalty.",
 ["histories","configurations","inputs"],"all histories of feasibility, all factors, targets and intervals",
 "No test runs the algorithm.",
 [GEN,CTX,POP],[("update_penalty",GEN),("initial penalty",CTX+":initial_penalty"),("history window",POP+":add_individual")],[("feasible_history","last hundred outcomes",POP)],["penalty before/after each step"])

p("C26","The fleet bound never excludes a feasible packing",
 "The number of vehicles the solver provides is at least the bin-packing lower bound with the documented safety margin, and if the customers can be packed into vehicles at all, then into that many: whenever every customer fits a vehicle on its own, a feasible solution exists within the fleet provided. All parts of the search use that same fleet size.",
 ["inputs"],"all demand vectors and capacities, including demands just above half or a third of the capacity",
 "No test computes a fleet size.",
 [CTX],[("initial_num_vehicles",CTX)],[("num_vehicles","fleet size",CTX)],["fleet size against first-fit-decreasing and exact packing"])

p("C27","A setting acts only on the part of the solver it belongs to",
 "In deterministic mode the course of a run (every incumbent, the populations, the penalty, step by step) does not change when a setting is changed that has no part to act on: the settings of ruin and recreate and of mutation when both are off, those of elite education when it is off, those of the local search when nothing uses it, the capacity factor of the split where the linear split runs, the penalty when no solution can exceed a vehicle, the settings that only concern what is written and where, and the limit of generations itself as long as it is not reached.",
 ["configurations","inputs","histories"],"all instances, seeds and configurations, and all changes of settings without a part to act on",
 "No test runs the solver, let alone two configurations side by side.",
 [CFG,CTX,GEN,LS,SPL,RR+"mod.rs"],[("configuration read by each part",CTX+", "+GEN+", "+LS+", "+SPL+", "+RR+"mod.rs")],[],["incumbents, penalty and populations after every step of both runs"])

p("C28","A run depends on what the data say, not on the form they come in",
 "In deterministic mode the course of a run is the same when all demands and the capacity are multiplied by the same power of two, when the distances of the coordinates are given as an explicit matrix, and when the distances are computed on demand instead of being stored: the same solutions in every step, at the same cost, the penalty scaled with the unit of the demands.",
 ["inputs","configurations","histories"],"all instances, seeds and configurations; step-by-step comparison of pairs of runs",
 "No test runs the solver; a wrong unit or a lookup that differs between the stores of the distances shows only in comparison.",
 [MAT,PRB,CTX,EV,SPL,LS],[("distance stores",MAT),("initial penalty",CTX+":initial_penalty")],[],["incumbents, populations and penalty after every step of both runs"])

p("C29","Elite education, mutation and repair take place exactly as configured",
 "Elite education takes place at every start and restart of the population, exactly when it is switched on and the instance has more customers than its size limit, starts from its configured temperature, lasts for its configured number of iterations per customer or its share of the time limit, updates the penalty every thousand iterations (down if the search stands at a feasible solution, up if not), and afterwards the penalty is back at its estimate. Every new individual, initial ones included, is mutated by ruin and recreate with the configured probability and for the configured number of iterations per customer from the configured temperature, and never when mutation is off; an infeasible individual is repaired under the tenfold penalty with the configured probability, and a repaired one joins the population besides the original.",
 ["configurations","histories","inputs"],"all settings of the three steps, all instances, restarts included",
 "No test runs the algorithm, and a step left out or taken too often still gives valid solutions.",
 [GEN,RR+"mod.rs",CTX],[("elite education",GEN+":iterate"),("mutation and repair",GEN+":educate")],[],["rounds of ruin and recreate counted, calls per generation"])

p("C30","The DIMACS build prints every new best solution, whole and in order",
 "Built for the DIMACS challenge, the program prints every new best solution on the standard output in CVRPLIB form: whole, valid, its routes numbered from 1 and followed by its cost, each cheaper than the one before, exactly those the log names as new best, the last one being the one in the solution file; solutions of sub-problems are not printed. The script for the challenge runs the program on the given instance with exactly the given rounding and time limit, whatever the configuration file says, and refuses to run when an argument is missing.",
 ["inputs","configurations","histories"],"all instances, configurations and runs, decomposed ones included; all arguments of the script",
 "No test builds the feature or runs the script.",
 [HIS,"HGSRR-DIMACS.sh",CLI,DEC],[("printing of new best solutions",HIS+":add"),("arguments of the script","HGSRR-DIMACS.sh")],[],["standard output, log and solution file of the program"])

p("C31","Ruin takes as much as configured, and recreate orders by the set weights",
 "A ruin starts at a customer drawn uniformly and takes one string from each of the routes nearest to it. The number of strings is uniform up to four times the configured average cardinality over one plus the longest string, less one; the length of a string is uniform up to the smallest of the configured maximum, the rounded average route of the fleet and the route itself; it lies uniformly around the nearest customer of the route. Half of the strings leave out a stretch in between, which grows from one customer by another with probability 0.99. Removed customers are put back in random order, by falling demand, farthest first or nearest first with weights 4, 4, 2 and 1.",
 ["inputs","configurations","schedules"],"all instances, solutions, average cardinalities, string lengths and random streams",
 "No test runs a ruin; a wrong probability still gives valid solutions every time.",
 [RR+"ruin.rs",RR+"recreate.rs"],[("adjacent string removal",RR+"ruin.rs:run, ruin_route"),("order of insertion",RR+"recreate.rs:sort_unassigned")],[],["customers removed by each ruin","order of the removed customers"])

p("C32","Random choices are fair, in range, and a seed gives one stream",
 "A drawn number lies in the half-open range asked for, every value of it equally likely; a shuffle gives every order of the same elements equally often; a sample has the wanted number of distinct elements of the list, every selection equally likely. Generators with the same seed give the same stream and the same order of hash tables, a reset begins the stream again from anywhere, other seeds give other streams, and generators without a seed do not repeat one another.",
 ["inputs","histories"],"all seeds, ranges, lists, sample sizes and sequences of draws",
 "No test draws a number.",
 [RND],[("seeded generator",RND),("sampling without replacement",RND+":sample_from_vec")],[("rng","generator",RND)],["draws"])

p("C33","Initial individuals are random, and a child combines two of the population",
 "Initial individuals start from a giant tour drawn uniformly from all orders. The giant tour of a child is made from two members of the population: it keeps a cyclic stretch of the first one's tour in place, with start and end drawn uniformly among all pairs of different places, and holds the other customers in the cyclic order of the second one's tour; it is cut into no more routes than the first one uses (or the least number possible). In every individual of the population the routes stand in order of the polar angle of their centres as seen from the depot, empty ones last.",
 ["inputs","configurations","histories"],"all instances, populations and configurations, with and without education where the order of routes is concerned",
 "No test runs the algorithm, and a wrong stretch still gives complete solutions.",
 [GEN,"src/solver/genetic/individual.rs"],[("crossover",GEN+":crossover, crossover_ox"),("random individual","src/solver/genetic/individual.rs:new_random"),("order of routes","src/solver/genetic/individual.rs:sort_routes")],[],["child after a generation without education","population after every step"])

p("C34","What is damaged or incomplete is refused, never solved as if it were whole",
 "An instance file is refused, never solved as if it were whole, when it breaks off, lacks a needed header, section, line or entry, has more or fewer lines in a section or distances than its dimension calls for, names another depot than the first node, or holds something other than a finite number where a number is due. A missing file, a folder in its place, and arguments that are unknown, missing or of the wrong form are refused too. The program then ends, with an error, and an earlier solution file stays as it was. It also ends with an error when the solution cannot be written.",
 ["inputs","faults"],"all ways of damaging a well-formed instance file at a line or an entry, single-character edits judged by the letter of the format, all wrong arguments and paths",
 "No test reads a file, and a damaged file that is taken gives a plausible solution of another problem.",
 [PAR,CLI,MAIN,SER],[("parser",PAR),("arguments",CLI),("output",SER)],[],["result of parsing","exit code, log and files of the program"])

p("C35","A sub-problem is the routes around a random customer, searched for its share",
 "The program works by decomposition exactly when the instance has at least the configured number of customers. Each decomposition starts from a customer drawn uniformly from all customers and takes its route, then the routes of its nearest neighbours from near to far, until they hold at least the configured number of customers or no neighbour is left; no further route is taken. The search of the sub-problem performs 2000 generations unless time runs out, whatever limit the whole run has, without elite education, and without any change to the configuration, penalty or count of rounds of the whole run.",
 ["inputs","configurations"],"all global solutions, instances, sub-problem sizes and seeds",
 "No test decomposes, and any selection of routes gives a valid solution.",
 [DEC],[("selection of routes",DEC+":decompose_global"),("search of the sub-problem",DEC+":run")],[],["mapping and sub-solution of a decomposition","count of generations after the search"])

p("C36","What the log says about the search is so",
 "Each time a best solution of the problem is entered in the history, and at no other time, the log gets a line 'New best' with its exact cost; solutions of sub-problems are not logged. The history's own messages are those of every best solution and of every restart, in the order of time. The line on the progress (debug level) is written in the first generation after every start or restart, then whenever the configured log interval has passed since it was last due, and at the end of the elite education; it gives the time, the generation, the generations since the current best was found, the size, best cost and average cost of the (min_population_size) best of each subpopulation (0 and -1 when it is empty), their diversity per customer (the average broken-pairs distance of these to as many of the closest others), the feasible share of the history and the penalty, as they are at that moment, to two decimals. The program writes its log to the standard error stream only, at the level the environment asks for.",
 ["inputs","configurations","histories"],"all instances, configurations and seeds",
 "No test reads the log, and the numbers depend on the whole state of the populations.",
 [GEN,HIS],[("progress line",GEN+":log"),("new best line",HIS+":add"),("figures",POP+":get_diversity")],[],["captured log records","standard error of the program","public state of the populations"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P))
