#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (one dict per property)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})
LPO, LPM, LPD = "hadar/optimizer/lp/optimizer.py", "hadar/optimizer/lp/mapper.py", "hadar/optimizer/lp/domain.py"
INP, OUT, NUM, UT = "hadar/optimizer/domain/input.py", "hadar/optimizer/domain/output.py", "hadar/optimizer/domain/numeric.py", "hadar/optimizer/utils.py"
REM, RES, PIP, SHU, ABC, HTM = "hadar/optimizer/remote/optimizer.py", "hadar/analyzer/result.py", "hadar/workflow/pipeline.py", "hadar/workflow/shuffler.py", "hadar/viewer/abc.py", "hadar/viewer/html.py"
STUDY = "every study: any number of networks, nodes, elements per node, converters, scenarios and time steps, any parameter values"

p("C01", "The minimised cost is exactly the documented sum of element costs",
  "For every scenario the linear program minimises exactly: lost load times the consumption's unavailability cost, plus production used times its cost, plus stored level times storage cost, plus link flow times link cost, plus converter output times converter cost. Every element of every node and every converter contributes once per time step, each cost is the one declared for that scenario and that time step, and nothing else is charged.",
  ["inputs"], STUDY, "Unit tests feed one element of each kind at one time step to the objective builder and the integration tests use a dozen tiny studies; omission or mis-indexing for the n-th element, a later step, another scenario or another network is not sampled.",
  [LPO, LPM], [("ObjectiveBuilder.*", LPO), ("InputMapper.get_node_var / get_conv_var", LPM), ("_solve_batch", LPO)], [("objective", "coefficients of the minimised function", LPO)], ["LPOptimizer.solve"])
p("C02", "Flow balance holds at every node and every time step",
  "For every node of every network and every time step the linear program contains exactly one balance equation: production used + lost load + storage withdrawals + link imports + converter outputs arriving = asked consumption + storage injections + link exports + converter intakes, all quantities taken for that scenario and step. A link's flow leaves its source node and enters its destination node in the same network, and a converter draws from each of its source nodes and delivers to its single destination node.",
  ["inputs"], STUDY, "The builder tests use two nodes, one step and one element of each kind; wrong node, step, sign or a skipped element for richer topologies is not reached.",
  [LPO, LPM], [("AdequacyBuilder.add_node/add_converter/build", LPO)], [("constraints", "one balance equation per (step, network, node)", LPO), ("importations", "link flows to add to destinations", LPO)], ["LPOptimizer.solve"])
p("C03", "Every storage obeys its level recurrence at every time step",
  "For every storage of every node and every time step the linear program forces level = previous level + efficiency x injected flow - withdrawn flow, where the previous level is the initial capacity at the first step and the same storage's own level one step earlier otherwise. This holds for all storages, also when a node carries several of them.",
  ["inputs"], STUDY, "Tests only put a single storage on a node and look at one constraint.",
  [LPO, LPM], [("StorageBuilder.add_node", LPO)], [("capacities", "level variable per (step, network, node, storage)", LPO)], ["LPOptimizer.solve"])
p("C04", "Every converter source obeys its conversion ratio",
  "For every converter, every one of its sources and every time step the linear program forces source flow x that source's ratio (for that scenario and step) = converter output flow. No source of any converter is left unconstrained.",
  ["inputs"], STUDY, "Tests use converters with one source or one scenario and step.",
  [LPO, LPM], [("ConverterMixBuilder.add_converter", LPO)], (), ["LPOptimizer.solve"])
p("C05", "Every decision variable stays within its own declared limits",
  "Each element at each scenario and time step has its own decision variable, bounded below by zero and above by that element's declared limit for that scenario and step: asked quantity for lost load, available quantity for productions and links, capacity, maximum inflow and maximum outflow for storages, maximum output for converters and maximum output divided by the source ratio for converter sources.",
  ["inputs"], STUDY, "Mapper tests read one scenario/step pair of one element of each kind.",
  [LPM], [("InputMapper.get_node_var / get_conv_var", LPM)], (), ["LPOptimizer.solve"])
p("C06", "The result reports each solved quantity at its own element, scenario and step",
  "The result of a solve has the structure of the study (same networks, nodes, element names and order, link destinations, converters and converter sources). Every entry [scenario, step] is the solved value of that very element at that scenario and step (consumption: asked minus lost load), no entry is left unset and no two elements share storage.",
  ["inputs"], STUDY, "Mapper tests look at one element, and integration tests at a handful of studies, most of them with one scenario.",
  [LPM, LPO, OUT, LPD], [("OutputMapper", LPM), ("JSONLP.to_json / from_json transport", LPD), ("solve_lp", LPO)], (), ["LPOptimizer.solve"])
p("C07", "Each scenario is solved once, alone, and only after its model is complete",
  "A solve processes every scenario of the study exactly once; each scenario gets its own fresh solver and model, to which all nodes, converters and time steps and all link imports are added before the solver is started. Nothing computed for one scenario is read while building or reporting another one.",
  ["inputs", "schedules"], STUDY + "; any assignment of scenarios to worker processes", "Tests run mostly one scenario, on one machine's worker count.",
  [LPO], [("_solve_batch", LPO), ("solve_lp", LPO)], (), ["LPOptimizer.solve"])
p("C08", "An unsolved model never yields a result",
  "If the underlying solver ends with anything but a usable solution (infeasible, unbounded, abnormal, invalid or not solved) the solve call raises an error; it never returns a result built from meaningless variable values.",
  ["inputs", "fault_sequences"], "every study, including infeasible ones, and every solver end status", "No test gives an infeasible study and the mock solver has no status.",
  [LPO], [("solver status check in _solve_batch", LPO)], (), ["LPOptimizer.solve"])
p("C09", "A study never stores an invalid element",
  "Building a study raises ValueError, and adds nothing, for: a production, consumption or link with any negative quantity; a storage with a negative flow, capacity or initial capacity or an efficiency outside [0, 1]; an element name already used for that kind on that node; a link whose source or destination is not a node of that network, that already exists, or that loops on itself; a converter source given twice; a converter destination that does not exist or is set twice. For time series a single offending entry suffices.",
  ["inputs", "histories"], "every sequence of build calls with any values, including series where only some entries are invalid", "Each rule is tested with one value, mostly a scalar.",
  [INP, NUM], [("Study.add_link/_add_*/_set_converter_dest", INP), ("NumericalValue comparisons", NUM)], (), ["Study fluent API"])
p("C10", "Scalar, row, column and matrix inputs mean the same everywhere",
  "A value given as a number, a (horizon,) series, a (scenario,1) column or a (scenario,horizon) matrix denotes one value per (scenario, step): constant, repeated for every scenario, repeated for every step, or as is. Indexing by [scenario, step] and the scenario-major flattened form always agree with that meaning, out-of-range indices raise an index error, and data of any other shape or type is rejected with ValueError. The study keeps its own copy: changing a given array afterwards does not change the study, and converting the same object again after a change gives its new content.",
  ["inputs"], "every input value, shape, horizon and scenario count", "Tests use one 3x5 configuration with a few probes.",
  [NUM], [("NumericalValueFactory.create", NUM), ("*NumericalValue.__getitem__/flatten", NUM)], (), ["factory.create(value)[s, t]", "flatten()"])
p("C11", "A study survives JSON export and import unchanged",
  "Importing the JSON form of a study rebuilds the same study: version, horizon, scenario count, networks, nodes, converters and every field of every element, each in its own place. (Network and node names must not contain '::', the separator used for converter sources.)",
  ["inputs"], "every study", "One small study is round-tripped.",
  [INP, UT], [("to_json/from_json of Study and its parts", INP), ("JSON.convert", UT)], (), ["Study.to_json / Study.from_json"])
p("C12", "A result survives JSON export and import unchanged",
  "Importing the JSON form of a result rebuilds the same result: every network, node, consumption, production, storage, link and converter field and the benchmark, each in its own place. (Network and node names must not contain '::', the separator used for converter sources.)",
  ["inputs"], "every result", "One result with scalar-like arrays is round-tripped.",
  [OUT, UT], [("to_json/from_json of Result and its parts", OUT)], (), ["Result.to_json / Result.from_json"])
p("C13", "Importing and exporting JSON never alters what it is given",
  "Exporting a study or result leaves the object untouched and shares no mutable container that a later import could corrupt; importing leaves the given document untouched, so the same document can be imported again and give an equal object.",
  ["inputs", "histories"], "every study, result and document, any number of repeated conversions", "Tests convert each document once.",
  [INP, OUT, UT], [("Study.from_json / Result.from_json copy before edit", INP + ", " + OUT)], (), ["from_json", "to_json"])
p("C14", "Solving, analysing and plotting never modify the study or the result",
  "Calling an optimizer, building an analyzer, running any analyzer query or indicator, or producing any plot leaves the study and the result they were given unchanged, so several analyses and solves of the same objects are independent.",
  ["inputs", "histories"], "every sequence of solves, queries and plots on shared study/result objects", "Tests use fresh objects each time.",
  [LPO, LPM, RES, ABC, HTM], [("no write through study/result references", "whole package")], (), ["LPOptimizer.solve", "ResultAnalyzer.*", "HTMLPlotting.*"])
p("C15", "Remote solving reports server errors and returns only finished results",
  "The remote optimizer sends the whole study to the configured server with the configured token, then polls the job the server named until it leaves the queued/computing states. Every response with an HTTP error status raises before its content is used, a job that ended in error raises an error carrying the server's message, and a result is returned only from a job that is no longer queued or computing.",
  ["fault_sequences", "schedules"], "every sequence of server responses and statuses", "One happy-path exchange and three status codes are tested.",
  [REM, "hadar/optimizer/optimizer.py"], [("solve_remote", REM), ("check_code", REM)], (), ["RemoteOptimizer.solve"])
p("C16", "Analyzer tables hold every value on its own labelled row",
  "The analyzer's flattened tables contain exactly one row per element (per converter source for source flows), scenario and time step, and in each row the study parameter columns, the solved value columns and the network, node, name/destination, scenario and time labels all belong to that same element, scenario and step. No element overwrites another and no row is left uninitialised.",
  ["inputs"], STUDY, "Tests flatten at most two elements of a kind, one storage, one converter with one source.",
  [RES], [("ResultAnalyzer._build_*", RES)], (), ["ResultAnalyzer tables and queries"])
p("C17", "A query returns exactly the rows selected, from the right table",
  "An analyzer query keeps exactly the rows that satisfy all given selections (a single value, a list, a slice, or nothing meaning everything) and takes them from the table of the element kind asked for, indexed in the order the selections were made (leading selections of one single value are left out of the index); a query lacking network, node, time or scenario is refused. An integer slice selects its start (default 0) up to but excluding its stop (default unlimited) by its step.",
  ["inputs"], "every combination and order of selections and every selection form", "A few orders and forms are tested.",
  [RES], [("Index/IntIndex.filter", RES), ("ResultAnalyzer.filter/_pivot", RES)], (), ["ResultAnalyzer.network()..."])
p("C18", "Builder and query steps are independent of each other",
  "Each step of a fluent chain (study building, analyzer query, plot selection) leaves the step it was called on usable and unaffected: keeping a reference to an intermediate step and continuing from it several times gives, each time, what a fresh chain would give.",
  ["histories"], "every interleaving of calls on intermediate chain objects", "Tests only use straight chains.",
  [INP, RES, ABC], [("NetworkFluentAPISelector/NodeFluentAPISelector", INP), ("NetworkFluentAPISelector._append", RES)], (), ["fluent APIs"])
p("C19", "Reported cost equals what the optimizer minimised for that scope",
  "The cost matrix reported for a node, a network or the whole study is, for each scenario and step, the sum of exactly the terms the optimizer charges in that scope: lost load, production, storage level, link export and converter output, each times its own cost. A node given without network means the default network.",
  ["inputs"], "every study, result and scope", "One study with one scenario and step is tested.",
  [RES, LPO], [("ResultAnalyzer.get_cost", RES)], (), ["ResultAnalyzer.get_cost"])
p("C20", "Balance, remaining capacity and element counts follow their definitions",
  "For each scenario and step, the balance of a node is the sum of its link exports minus the sum of its link imports inside that network; the remaining available capacity of a network is (available - used production) - (asked - given consumption); element counts give the number of consumptions, productions, storages, links, converters fed and converters received by the node, and their sums for a network or the whole study.",
  ["inputs"], "every study, result, node and network", "One or two small studies are tested.",
  [RES], [("get_balance/get_rac/get_elements_inside", RES)], (), ["ResultAnalyzer.get_balance/get_rac/get_elements_inside"])
p("C21", "A pipeline accepts exactly the stages whose inputs are available",
  "Linking a stage after a stage or pipeline is refused with ValueError when the stage requires a column the pipeline so far does not provide (a stage without requirements always fits), and the combined requirement is: inputs of the first constrained stage, outputs of the last one plus earlier outputs it did not consume. Running a stage or pipeline on data lacking a required column, or registering a pipeline in the shuffler whose inputs are missing or that does not output the shuffler column, is refused before computing.",
  ["inputs", "programs"], "every sequence of stages and every data set", "Two-stage combinations are tested.",
  [PIP, SHU], [("Plug.linkable_to/__add__/computable", PIP), ("Pipeline.__init__/__add__", PIP)], (), ["Stage + Stage", "Pipeline(...)", "Shuffler.add_pipeline"])
p("C22", "Composing and running pipelines has no side effects",
  "Linking stages or running a pipeline or stage never changes the caller's data frame, the stages or pipelines combined, or their plugs: a stage or pipeline can be reused in several pipelines, and each pipeline runs exactly its stages in the order they were linked, each on the output of the previous one.",
  ["histories"], "every history of compositions and runs sharing stages, pipelines and data frames", "Tests build and run each object once.",
  [PIP, SHU], [("Pipeline.__add__", PIP), ("RestrictedPlug.__add__", PIP), ("Stage.standardize_column", PIP)], (), ["Pipeline", "Stage"])
p("C23", "Built-in stages treat every scenario and column as documented",
  "Every stage keeps the time axis and processes all scenarios: clip bounds all values; rename changes only the named columns; drop removes exactly the named columns in all scenarios; repeat yields n copies of each scenario with its columns kept together under the right label; a per-scenario stage applies its function to each scenario and returns all of its columns; fault draws an outage at each step with the given probability, each beginning at any step of the horizon, and only lowers quantity, for each drawn outage by the loss over its drawn duration, and any given seed makes it reproducible.",
  ["inputs"], "every timeline (index, scenarios, columns and their order) and stage parameters", "Each stage is tested on one or two frames with default index.",
  [PIP], [("Clip/Rename/Drop/Fault/RepeatScenario/FocusStage", PIP)], (), ["Stage.__call__"])
p("C24", "Shuffled scenarios are whole source rows drawn independently",
  "Shuffling returns, for every registered timeline under its own name, the requested number of scenarios, each an entire row of that timeline's data (for a pipeline: the shuffler column of one computed scenario) drawn from all rows with the configured sampler, in the order drawn. Every sampling draws anew, and draws made in worker processes do not repeat each other: every task reseeds its generator from operating-system entropy before drawing, the default sampler draws from that generator, and no stage run in between makes the draws predictable unless it was given a seed.",
  ["inputs", "schedules"], "every set of timelines, scenario count and worker scheduling", "Tests use mock samplers or tiny data.",
  [SHU, PIP], [("Shuffler.shuffle/compute", SHU), ("Timeline.sample", SHU)], (), ["Shuffler.shuffle"])
p("C25", "Each plot shows the element, scenario, step and quantity asked for",
  "Every plot method passes to the drawing backend the data of the element it was selected for (same network, node, name or destination, and kind), restricted to the scenario or time step given and to nothing else, with the matching slice of remaining capacity where it colours points; the stack plot shows all productions, withdrawals, converter arrivals and net imports against consumptions, injections, converter intakes and net exports of that node and scenario; storage candles show the initial level plus the accumulated efficient inflow minus outflow and the storage monotone the inflow minus the outflow; the map shows the balance of every node of the network and the net exchange of every linked pair.",
  ["inputs"], "every study, result, element, scenario and step", "Plots are checked by hash for one study with one or two scenarios.",
  [ABC, HTM], [("*FluentAPISelector plot methods", ABC)], (), ["HTMLPlotting.network()..."])
p("C26", "Parallel runs release their worker processes",
  "Every solve and every shuffle releases the worker processes it started on every way out, including when a worker fails.",
  ["fault_sequences", "histories"], "every run, any number of runs, with or without errors", "Tests never count processes.",
  [LPO, SHU], [("multiprocessing.Pool context", LPO + ", " + SHU)], (), ["LPOptimizer.solve", "Shuffler.shuffle"])
p("C27", "The study stores exactly what the builder was told",
  "Every value passed to the study builder (name, cost, quantity, capacities, flows, efficiency, initial level, ratio, maximum, endpoints) is stored in the field of that meaning of one new element of that kind, on the node, network or converter selected, with the documented defaults when omitted; re-selecting an existing network, node or converter keeps its content.",
  ["inputs", "histories"], "every sequence of builder calls with any arguments", "One study is built and compared.",
  [INP], [("fluent API selectors", INP), ("Study._add_*", INP)], (), ["Study fluent API"])
p("C28", "The returned dispatch is cost-optimal",
  "For every feasible study the dispatch returned has the minimal total cost among all dispatches satisfying the constraints, up to solver tolerance.",
  ["inputs"], "every feasible study", "Only a few studies with known optimum are tested.",
  [LPO], [("ortools GLOP", "external")], (), ["LPOptimizer.solve"])
p("C29", "Local and remote optimizers give the same result",
  "For every study the remote optimizer returns the result the local optimizer would compute.",
  ["inputs", "configurations"], "every study and server version", "No server is available to the tests.",
  [REM], [("external server", "community-server")], (), ["RemoteOptimizer.solve"])
p("C30", "Scenario sampling is statistically uniform",
  "Over many draws each source row is selected with equal frequency and draws of different timelines are uncorrelated.",
  ["inputs", "schedules"], "every data set and number of draws", "Statistical; not tested.",
  [SHU], [("numpy.random.randint", SHU)], (), ["Shuffler.shuffle"])
p("C31", "The HTML backend draws exactly the data it is given",
  "Every HTML figure draws the given data and nothing else: a timeline one line per scenario against the time index; a monotone all values in decreasing order against 0 to 100 %; a gaussian the quantities with non-negative remaining capacity in green and the others in red; candles the given opening and closing levels; a stack the cumulated level of each area and of each line; a matrix every cell with its sign scaled by the largest of that sign, also when no cell is positive or negative; a map each node at its coordinates with its balance and one arrow from source to destination per exchange. The time index has exactly one entry per step of the horizon, from the start to the end date when dates are given.",
  ["inputs"], "every data set handed to the backend", "Figures are compared by hash for one study.",
  [HTM], [("HTMLElementPlotting.*", HTM), ("ABCPlotting.__init__", ABC)], (), ["HTMLPlotting"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
