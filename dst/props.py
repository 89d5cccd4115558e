"""The properties, and how each is checked.  tools/gen.py derives
properties.jsonl and MANIFEST.json from this table."""

PROPS = {}


def prop(pid, title, statement, over, qtext, why, files, mechanism, world=None, quick=None, thorough=None,
         rule="", real="", stub="", observe=(), state=(), assumptions=(), note="", time_unit=None, python=None,
         cpu=30):
    PROPS[pid] = dict(
        id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
        mechanism=mechanism, observe=list(observe), state=list(state),
        rule=rule, real=real, stub=stub, assumptions=list(assumptions), note=note,
        check=(dict(python=python) if python else dict(world=world, quick=quick, thorough=thorough, cpu=cpu)))
    if time_unit:
        PROPS[pid]["time_unit"] = time_unit


KREAL = ("Timer, Context, Agent, Region, Institution, Facility, ExchangeManager/ResourceExchange, Recorder, Datum, "
         "SimInit::Snapshot compiled from /repo's working tree")

prop("P01", "Every time step runs its phases in order, visiting each participant once",
     "Each simulated time step runs its phases in the fixed order build, tick, material exchange, product exchange, "
     "tock, decision, decommission, and within each phase visits every agent that is in the simulation and takes part "
     "in it exactly once and no other agent. "
     "The run executes exactly the configured number of steps, or stops at the end of the step in which termination was "
     "requested, and writes exactly one completion record giving the true last step and whether it ended early. "
     "A state snapshot is recorded at the start of the step after each step that asked for one, and always one at the end.",
     ["schedules", "histories", "configurations"],
     "for every population of regions, institutions and facilities, every history of builds, decommissions, snapshot and "
     "termination requests issued from any callback, and every duration",
     "The unit tests tick a handful of agents registered up front; no test lets agents come and go, register twice, or "
     "request termination and snapshots from arbitrary callbacks, and the guarantee is over all such histories.",
     ["src/timer.cc", "src/timer.h", "src/context.cc", "src/exchange_manager.h", "src/resource_exchange.h",
      "src/facility.cc", "src/institution.cc", "src/region.cc"],
     [{"name": "phase loop", "where": "src/timer.cc Timer::RunSim"},
      {"name": "listener registration", "where": "src/timer.cc Timer::RegisterTimeListener/UnregisterTimeListener"},
      {"name": "trader registration", "where": "src/context.h Context::RegisterTrader"}],
     world="kernel", quick=(60000, 25), thorough=(6000000, 600),
     rule="one run = one simulation of 1-10 steps with scripted agents whose every callback may schedule builds and "
          "decommissions, request termination or snapshots; non-trivial when more than six agent callbacks ran",
     real=KREAL, stub="agents are scripted; the output backend is an in-memory list",
     observe=["agent callbacks", "Finish and Snapshots output tables"],
     note="Seeded search over agent populations and action schedules; judged online by a phase automaton.")

prop("P02", "Agents enter and leave exactly when scheduled, with a consistent family tree",
     "An accepted request to build an agent takes effect exactly once, at the start of the requested step and under the "
     "requested parent (without a parent if that one has left), and an accepted request to decommission takes effect "
     "exactly once at the end of the requested step, a later request for the same agent replacing the earlier one; "
     "requests for the past are rejected and institutions retire their children when their lifetime ends. "
     "Parents are told of each such entry and exit, and parent links, child links and the per-prototype and "
     "per-implementation population counts always describe the agents actually present. "
     "The output contains exactly one entry record per agent, one exit record per departed agent and one record per "
     "accepted request, with the true times.",
     ["schedules", "histories"],
     "for every interleaving of build and decommission requests from any agent in any callback, including requests that "
     "target the current step, are rescheduled, come from parents that leave before the build, or hit several agents in one step",
     "Tests schedule one build or one decommission at a time from outside; requests made from within notifications, "
     "rescheduling and parents that leave first are histories no test samples.",
     ["src/timer.cc", "src/agent.cc", "src/context.cc", "src/institution.cc", "src/facility.cc", "src/region.cc"],
     [{"name": "build and decommission queues", "where": "src/timer.cc Timer::DoBuild, DoDecom, SchedBuild, SchedDecom"},
      {"name": "family tree", "where": "src/agent.cc Agent::Connect, Agent::~Agent"},
      {"name": "end of life", "where": "src/institution.cc Institution::Tock"},
      {"name": "population counts", "where": "src/context.h Context::RegisterAgent/UnregisterAgent"}],
     world="kernel", quick=(60000, 25), thorough=(6000000, 600),
     rule="one run = one simulation with random build/decommission traffic against a reference schedule; non-trivial when "
          "at least one scheduled build happened or more than six callbacks ran",
     real=KREAL, stub="agents are scripted; the output backend is an in-memory list",
     observe=["agent callbacks", "AgentEntry, AgentExit, BuildSchedule, DecomSchedule output tables"],
     note="Refinement against an executable reference model of the schedule and the family tree.")

XREAL = ("ExchangeManager, ResourceExchange, ExchangeTranslator, ExchangeGraph, GreedyPreconditioner, GreedySolver, "
         "ProgSolver, ProgTranslator, Cbc/Clp bindings, TradeExecutor, Trader, Timer, Context, Recorder compiled from "
         "/repo's working tree; Cbc itself is the installed library")
XSTUB = "trading agents are scripted; the output backend is an in-memory list"

prop("P03", "Resource exchange solutions respect every limit stated by the traders",
     "The trades chosen in one exchange by the default solver never exceed the quantity of the bid or of the request they "
     "serve, never use more of a supplier's capacity constraint than its stated capacity (as the supplier's own conversion "
     "counts it), never deliver a request portfolio more than it asks for in total (for mutually satisfying requests: the one "
     "amount the group asks for), and trade an exclusive request, bid or offered resource at most once and only in its full "
     "amount. "
     "Arcs whose preference is not positive are never used, and no trade is zero, negative or not a number.",
     ["inputs", "configurations", "schedules"],
     "for every set of request and bid portfolios, constraints, converters, preferences and exclusivity, in either resource type",
     "Solver tests use hand-built graphs of two or three nodes; feasibility must hold for every bipartite market.",
     ["src/greedy_solver.cc", "src/greedy_preconditioner.cc", "src/exchange_graph.cc", "src/exchange_translator.h",
      "src/resource_exchange.h", "src/capacity_constraint.h", "src/request_portfolio.h", "src/bid_portfolio.h"],
     [{"name": "greedy matching", "where": "src/greedy_solver.cc GreedySolver::GreedilySatisfySet, UpdateCapacity"},
      {"name": "translation of constraints", "where": "src/exchange_translator.h"},
      {"name": "capacity queries", "where": "src/exchange_graph.cc Capacity"}],
     world="exchange", quick=(60000, 25), thorough=(6000000, 600),
     rule="one run = 1-3 exchanges among random traders; non-trivial when at least one trade was made",
     real=XREAL, stub=XSTUB, observe=["trades handed to the agents", "Transactions output table"],
     note="Random markets run through the whole exchange; each solution is judged against the traders' own statements.",
     time_unit="exchanges (one per time step and resource type)")

prop("P04", "Every trade is executed exactly once between the right parties",
     "Each trade chosen by the exchange is put once to the agent that made the bid, and each resource that agent produces for it "
     "is handed unchanged, exactly once, to the agent that made the request and to nobody else; no agent is asked twice or "
     "served twice in one exchange. "
     "The output contains exactly one transaction record, with a unique id, per non-empty delivery, naming the true sender, "
     "receiver, resource, commodity and time. "
     "All suppliers produce before any requester is given its resources.",
     ["inputs", "schedules", "histories"],
     "for every market of traders, commodities and resource types over several time steps, whatever the agents return",
     "Tests execute one trade between two mocks; pairing, accounting and ordering must hold for all concurrent trades.",
     ["src/trade_executor.h", "src/trade_executor.cc", "src/exchange_manager.h", "src/resource_exchange.h", "src/trader.h", "src/exchange_translator.h"],
     [{"name": "trade execution", "where": "src/trade_executor.h TradeExecutor::ExecuteTrades"},
      {"name": "transaction records", "where": "src/trade_executor.h TradeExecutor::RecordTrades"}],
     world="exchange", quick=(60000, 25), thorough=(6000000, 600),
     rule="one run = 1-3 exchanges among random traders; non-trivial when at least one trade was executed",
     real=XREAL, stub=XSTUB, observe=["GetTrades/AcceptTrades callbacks", "Transactions output table"],
     note="Exactly-once delivery judged from the callbacks and the output table.",
     time_unit="exchanges (one per time step and resource type)")

prop("P05", "The default solver serves demand in the documented order",
     "The default (greedy) solver serves request groups in order of commodity weight and average preference as documented, and "
     "within each request takes offers from the most to the least preferred, each for as much as every limit allows, until the "
     "request group is satisfied. "
     "A request is left unsatisfied only if no remaining feasible offer of positive preference could have served it, and the "
     "preferences used are those after the agents' and their parents' adjustments.",
     ["inputs", "configurations"],
     "for every market without ties in preference, every commodity weighting and every preference adjustment",
     "Unit tests check the order of two or three nodes; the solution's shape is a function of the whole market.",
     ["src/greedy_solver.cc", "src/greedy_preconditioner.cc", "src/resource_exchange.h", "src/exchange_context.h", "src/sim_init.cc"],
     [{"name": "conditioning", "where": "src/greedy_preconditioner.cc GreedyPreconditioner::Condition"},
      {"name": "greedy matching", "where": "src/greedy_solver.cc GreedySolver::Condition, GreedilySatisfySet"},
      {"name": "preference adjustment", "where": "src/resource_exchange.h ResourceExchange::AdjustAll"}],
     world="exchange", quick=(60000, 25), thorough=(6000000, 600),
     rule="one run = 1-3 exchanges among random traders; non-trivial when at least one trade was made",
     real=XREAL, stub=XSTUB, observe=["trades handed to the agents"],
     assumptions=["runs in which two arcs or groups tie in the documented order are not judged, the order among ties being unspecified"],
     note="Refinement against a small executable reference of the documented greedy algorithm.",
     time_unit="exchanges (one per time step and resource type)")

prop("P06", "The optimizing solver is feasible, no worse than greedy, and survives stalls",
     "With the optimizing solver selected, the trades respect bid quantities, capacity constraints, request quantities and "
     "exclusivity, and their total weighted cost is never higher than that of the greedy solution of the same market. "
     "If the optimizer stalls, runs out of its time limit or is otherwise cut short, the exchange still yields a feasible set of "
     "trades, and the simulation goes on.",
     ["inputs", "fault_sequences", "configurations"],
     "for every market, every time limit and every moment at which the optimizer's clock jumps past the limit",
     "Tests solve toy problems to completion; no test makes the optimizer run out of time.",
     ["src/prog_solver.cc", "src/prog_translator.cc", "src/solver_factory.cc", "src/greedy_solver.cc", "src/sim_init.cc"],
     [{"name": "optimizing solver", "where": "src/prog_solver.cc ProgSolver::SolveGraph"},
      {"name": "translation to a linear program", "where": "src/prog_translator.cc ProgTranslator"},
      {"name": "time limit", "where": "src/solver_factory.cc SolveProg"}],
     world="exchange", quick=(16000, 35), thorough=(2000000, 600),
     rule="one run = 1-3 exchanges solved by the optimizer under a simulated clock; non-trivial when at least one trade was made",
     real=XREAL, stub=XSTUB + "; the process clock (getrusage, gettimeofday) seen by the optimizer is simulated",
     observe=["trades handed to the agents"],
     assumptions=["the optimizer library itself is trusted where it reports success"],
     note="Fault injection into the optimizer's clock; solutions compared with the greedy solution of the same market.",
     time_unit="exchanges (one per time step and resource type)")

RREAL = ("Material, Product, Composition, Resource, ResTracker, ResBuf, ResMap, TotalInvTracker, Package, TransportUnit, Context, "
         "Timer, Recorder compiled from /repo's working tree")
RSTUB = ("the facility issuing the operations is scripted; atomic masses of four nuclides are given in memory (no nuclear "
         "data file exists here); the output backend is an in-memory list")

prop("P07", "Resources are conserved, and the output's lineage says so",
     "No sequence of creating, splitting, merging, separating, packaging and transmuting resources creates or destroys quantity, "
     "or, transmutation apart, the amount of any nuclide or the quality of any product; no quantity ever becomes negative, and "
     "operations that would do so are refused without effect. "
     "The recorded resource states form a lineage: every existing tracked resource is described by its latest recorded state, "
     "every state names the states it came from, quantities and nuclides balance along every split and merge, and nothing else "
     "is recorded as existing. "
     "Untracked resources, clones and pieces taken from them leave no trace in the output.",
     ["histories", "inputs"],
     "for every sequence of resource operations by the agents of a simulation, including several simulations in one process",
     "Unit tests check single operations; conservation and lineage are properties of whole histories.",
     ["src/material.cc", "src/product.cc", "src/res_tracker.cc", "src/resource.cc", "src/composition.cc", "src/comp_math.cc",
      "src/toolkit/res_manip.cc"],
     [{"name": "lineage records", "where": "src/res_tracker.cc"},
      {"name": "material operations", "where": "src/material.cc ExtractComp, Absorb, Transmute, PackageExtract"},
      {"name": "product operations", "where": "src/product.cc"}],
     world="resources", quick=(60000, 25), thorough=(6000000, 600),
     rule="one run = 1-2 simulations of 1-4 steps with seeded resource operations, judged after each; non-trivial when more "
          "than eight operations ran",
     real=RREAL, stub=RSTUB, observe=["quantities and compositions of resource objects",
                                      "Resources, MaterialInfo, Compositions, Products, ResCreators output tables"],
     note="Reference ledger plus a check of the recorded lineage graph; refused operations are injected as faults.")

prop("P08", "Buffers and inventory trackers account exactly for what they hold",
     "A resource buffer's quantity, count and space always equal those of the resources in it, never exceed its capacity, and "
     "resources leave oldest first (or newest first where asked), in exactly the quantity or number requested, splitting only "
     "the last one. "
     "Pushes that would exceed the capacity, repeat a resource or have the wrong type, pops of more than is there, and capacities "
     "below the content are refused and change nothing. "
     "Inventory trackers and keyed resource maps always agree with their members.",
     ["histories", "inputs"],
     "for every sequence of pushes, pops, capacity changes and refused operations, with bulk and packaged storage",
     "Tests check one or two operations on small buffers; the accounting must survive every history, rounding included.",
     ["src/toolkit/res_buf.h", "src/toolkit/res_map.h", "src/toolkit/total_inv_tracker.h", "src/toolkit/res_manip.cc"],
     [{"name": "buffer", "where": "src/toolkit/res_buf.h ResBuf"},
      {"name": "tracker", "where": "src/toolkit/total_inv_tracker.h TotalInvTracker"},
      {"name": "map", "where": "src/toolkit/res_map.h ResMap"}],
     world="resources", quick=(60000, 25), thorough=(6000000, 600),
     rule="one run = 1-2 simulations of 1-4 steps with seeded resource and buffer operations, judged after each; non-trivial "
          "when more than eight operations ran",
     real=RREAL, stub=RSTUB, observe=["ResBuf, ResMap, TotalInvTracker accessors and returned resources"],
     note="Refinement against a reference deque; refused operations are injected as faults.")

prop("P09", "Packages and transport units respect their fill limits",
     "Packaging a resource yields packages each within the package's fill limits that together with the remainder make up the "
     "original, leaving no remainder that could still fill a package, filled in the documented way for the strategy. "
     "A resource can be put into a package only if its quantity fits, its package is always the one recorded in the output, and "
     "taking it out is recorded. "
     "The number of packages a transport unit says can be shipped is always achievable with units within its limits.",
     ["inputs", "histories"],
     "for every quantity, fill limits (including no minimum and no maximum), strategy and history of packaging",
     "Tests check a few round numbers per strategy; limits and rounding must hold for every quantity.",
     ["src/package.cc", "src/package.h", "src/resource.h", "src/material.cc", "src/product.cc", "src/res_tracker.cc"],
     [{"name": "fill strategy", "where": "src/package.cc Package::GetFillMass"},
      {"name": "transport units", "where": "src/package.cc TransportUnit::GetTransportUnitFill, MaxShippablePackages"},
      {"name": "repackaging", "where": "src/material.cc, src/product.cc PackageExtract, ChangePackage"}],
     world="resources", quick=(60000, 25), thorough=(6000000, 600),
     rule="one run = 1-2 simulations of 1-4 steps with seeded packaging operations; non-trivial when a packaging was judged",
     real=RREAL, stub=RSTUB, observe=["packaged resources", "Resources output table"],
     assumptions=["package maxima are positive", "random fill strategies are judged by their limits, not their distribution"],
     note="Seeded search over limits, quantities and histories; refused packagings are injected as faults.")

prop("P19", "A failing agent stops the run without a false completion or lost records",
     "If any agent fails in any of its callbacks, the simulation stops and reports that very failure to the caller. "
     "No completion record is written for such a run, and every record made before the failure still reaches the output "
     "backends exactly once when the output is closed. "
     "Tearing the simulation down afterwards is safe.",
     ["fault_sequences", "histories"],
     "for every callback of every agent at every point of a run at which it may throw, and every output buffer size",
     "No test injects a failing agent into a running simulation; the guarantee is over every possible point of failure.",
     ["src/timer.cc", "src/recorder.cc", "src/context.cc", "cli/cyclus.cc"],
     [{"name": "exception propagation through the phase loop", "where": "src/timer.cc Timer::RunSim"},
      {"name": "flush on close and destruction", "where": "src/recorder.cc Recorder::Close, Recorder::~Recorder"}],
     world="kernel", quick=(50000, 20), thorough=(6000000, 600),
     rule="one run = one simulation in which the n-th agent callback throws (n seeded); non-trivial when the failure fired",
     real=KREAL, stub="agents are scripted; the output backend is an in-memory list",
     observe=["exception seen by the caller of the run", "rows delivered to the backend"],
     note="Fault injection: a seeded callback throws; containment is judged from the rows delivered.")

SREAL = ("Recorder, Datum, SqliteBack, SqliteDb, Hdf5Back, QueryBackend helpers compiled from /repo's working tree, on the "
         "installed libsqlite3 and libhdf5")
SSTUB = ("the disk: open, pwrite, pread, ftruncate, fcntl and close are interposed and can fail, write short, run full or "
         "lose everything after a crash point")

prop("P11", "Every record reaches every output backend exactly once and in order",
     "Each record an agent or the kernel makes is delivered to every registered backend exactly once, complete, unaltered and "
     "in the order in which the records were made, stamped with the simulation's id unless that was switched off, for every "
     "output buffer size. "
     "After a flush or close every record made before it has been delivered and every backend that received records has been "
     "told to flush. "
     "A backend that fails does not cost the other backends their records, and its failure is reported to the caller.",
     ["histories", "fault_sequences", "configurations"],
     "for every sequence of records, flushes, buffer size changes, backend registrations and backend failures",
     "Tests use one buffer size and one well-behaved backend; exactly-once delivery is over all sequences, buffer sizes and failures.",
     ["src/recorder.cc", "src/recorder.h", "src/datum.cc", "src/datum.h", "src/rec_backend.h"],
     [{"name": "output buffer", "where": "src/recorder.cc Recorder::NewDatum, AddDatum, NotifyBackends"},
      {"name": "flush and close", "where": "src/recorder.cc Recorder::Flush, Close, ~Recorder"}],
     world="storage", quick=(60000, 25), thorough=(6000000, 600),
     rule="one run = one recorder with 1-3 scripted backends and a seeded sequence of records, flushes, buffer resizes and "
          "backend failures; non-trivial when several records were made",
     real="Recorder and Datum compiled from /repo's working tree", stub="backends are scripted and may fail on any call",
     observe=["rows and flush calls seen by each backend"], time_unit="recorder operations",
     note="Refinement against a reference log per backend; backend failures are injected as faults.")

prop("P12", "SQLite output survives crashes and disk faults without lost or torn batches",
     "Every batch of records that the SQLite backend accepted without reporting an error is in the database file, complete, "
     "unaltered and in order, also if the process is killed at any moment after that; a batch it refused with an error leaves no "
     "partial rows behind and does not prevent later batches from being stored once the disk works again. "
     "No fault leads to silent loss, duplicated rows or an unreadable file, and closing the backend releases the file.",
     ["crash_points", "fault_sequences", "histories"],
     "for every sequence of records and buffer sizes, every crash between batches and every failing, short or out-of-space disk "
     "operation",
     "No test makes the disk fail or the process die; durability is over every fault position.",
     ["src/sqlite_back.cc", "src/sqlite_back.h", "src/sqlite_db.cc", "src/sqlite_db.h", "src/recorder.cc"],
     [{"name": "batch transaction", "where": "src/sqlite_back.cc SqliteBack::Notify"},
      {"name": "statement errors", "where": "src/sqlite_db.cc SqlStatement::Step, Exec"}],
     world="storage", quick=(30000, 30), thorough=(3000000, 600),
     rule="one run = one recorder on a database file with seeded disk faults, crash copies and reopenings; non-trivial when more "
          "than three records were made",
     real=SREAL, stub=SSTUB, observe=["contents of the database file read back by the backend and by plain SQLite"],
     time_unit="records",
     assumptions=["the backend keeps its rollback journal in memory, so crash points lie between batches, not inside one",
                  "at most one write of a batch fails, so that SQLite can write its rollback",
                  "the file is judged as the operating system would see it after the process died (no power loss)"],
     note="Fault injection on the simulated disk; durability is judged from the file after crash, reopen and close.")

prop("P13", "What is written to an output database is read back unchanged by queries",
     "For every supported column type, in SQLite and in HDF5, each recorded row is read back with exactly the values, column "
     "names, column types and order with which it was recorded, before and after the file is closed and reopened and when several "
     "simulations share a file. "
     "A query returns exactly the rows that satisfy all its conditions, also through the prefix and condition wrappers, and the "
     "tables listed are exactly those recorded.",
     ["inputs", "histories", "configurations"],
     "for every table layout, column type, value (including empty and nested containers), query condition and sequence of "
     "flushes, queries and reopenings",
     "Tests round-trip a few hand-picked values per type in a fresh file; the guarantee is over all values, layouts and reopenings.",
     ["src/hdf5_back.cc.in", "src/hdf5_back.h.in", "src/hdf5_back_gen.py", "src/sqlite_back.cc", "src/query_backend.h"],
     [{"name": "variable length values by key", "where": "src/hdf5_back.cc.in VLWrite, VLRead, VLDataset; src/query_backend.h Sha1"},
      {"name": "binding and parsing", "where": "src/sqlite_back.cc SqliteBack::BindTo, ColAsVal"},
      {"name": "conditions", "where": "src/query_backend.h CmpCond, CondInjector; src/sqlite_back.cc SqliteBack::Query"}],
     world="storage", quick=(12000, 40), thorough=(1200000, 600),
     rule="one run = one database file with 1-5 random tables written by 1-2 simulations and queried during, between and after; "
          "every run is non-trivial",
     real=SREAL, stub="nothing (the disk is a scratch directory)", observe=["Query, Tables, Schema, ColumnTypes results"],
     time_unit="records",
     assumptions=["not-a-number values, strings with control characters and HDF5 blobs with zero bytes are not generated",
                  "fixed-length columns are given values that fit", "HDF5 is limited to the column types and nestings listed in DESIGN.md"],
     note="Refinement against an in-memory table model; close and reopen at seeded points.")

prop("P14", "HDF5 output never loses records silently when the disk fails",
     "If any disk operation fails while results are written to an HDF5 file, either some record, flush or close operation reports "
     "an error or the file holds every record unaltered after it was closed. "
     "No error is reported when the disk works, and tearing down after a reported error is safe.",
     ["fault_sequences", "histories"],
     "for every sequence of records and flushes and every failing, short or out-of-space disk operation",
     "No test makes the disk fail; silent loss needs a fault at a particular write.",
     ["src/hdf5_back.cc.in", "src/hdf5_back.h.in", "src/recorder.cc"],
     [{"name": "status checks", "where": "src/hdf5_back.cc.in WriteGroup, CreateTable, AppendVLKey, InsertVLVal, Flush, Close"}],
     world="storage", quick=(12000, 30), thorough=(1200000, 600),
     rule="one run = one recorder on an HDF5 file with a seeded disk fault window; every run is non-trivial",
     real=SREAL, stub=SSTUB, observe=["exceptions from record, flush and close", "contents read back from the file"],
     time_unit="records",
     note="Fault injection on the simulated disk; every run ends in a reported error or a complete file.")

prop("P10", "Buy and sell policies stay within their limits and deliver what they promise",
     "A buy policy only asks for material when its inventory is at or below its request level and it is neither stopped nor "
     "dormant, and then asks for exactly what its rules allow: never more than its throughput, the space left in its buffer and "
     "tracker, the amount missing to its fill level and the remainder of its cumulative cap; what it receives never exceeds "
     "these limits, quantized purchases arrive in whole quanta, and its recorded active and dormant periods are the true ones. "
     "A sell policy only offers the commodities it was given, never more than its throughput and stock, only in packages within "
     "their fill limits and in numbers its transport unit permits, and ships material of the requested composition if told to "
     "ignore composition and otherwise of its own; configurations of quanta, packages and transport units that cannot be met are "
     "refused. "
     "Material is conserved, and no demand stays unmet next to unrestricted free stock of the same commodity.",
     ["histories", "configurations", "inputs"],
     "for every combination of policies, buffer sizes, thresholds, cycles, packages and every history of stock changes and trades",
     "Tests run one policy configuration each for a few steps with fixed suppliers; limits must hold over all combinations and histories.",
     ["src/toolkit/matl_buy_policy.cc", "src/toolkit/matl_buy_policy.h", "src/toolkit/matl_sell_policy.cc",
      "src/toolkit/matl_sell_policy.h", "src/toolkit/total_inv_tracker.h", "src/toolkit/res_buf.h"],
     [{"name": "requests", "where": "src/toolkit/matl_buy_policy.cc MatlBuyPolicy::GetMatlRequests, TotalAvailable, ReadyForNextActive"},
      {"name": "receipts", "where": "src/toolkit/matl_buy_policy.cc MatlBuyPolicy::AcceptMatlTrades"},
      {"name": "bids and shipments", "where": "src/toolkit/matl_sell_policy.cc MatlSellPolicy::GetMatlBids, GetMatlTrades"}],
     world="policies", quick=(120000, 30), thorough=(4000000, 600),
     rule="one run = one simulation of 3-14 steps with 1-3 facilities holding buyers and sellers of random configuration and "
          "random stock changes between phases; non-trivial when material was traded",
     real="MatlBuyPolicy, MatlSellPolicy, TotalInvTracker, ResBuf, Package, TransportUnit, the whole exchange, Timer, Context, "
          "Recorder compiled from /repo's working tree",
     stub="facilities are scripted holders of policies; the output backend is an in-memory list",
     observe=["request and bid portfolios", "trades and material handed over", "BuyPolicyInfo output table"],
     assumptions=["one buy policy per buffer", "quantized buyers have some finite limit", "active periods last at least one step",
                  "policies with dormant periods are not stopped or reconfigured midway", "the greedy solver decides the exchange"],
     note="Seeded search over configurations and histories against a reference model of the policies' rules.")

RREAL = ("SimInit, Context, Timer, Agent, Recorder, SqliteBack, Hdf5Back, Resource classes, the resource exchange compiled from "
         "/repo's working tree")

prop("P15", "A simulation restarted from a snapshot continues exactly as the original",
     "A simulation initialised from its database starts with exactly the settings, recipes, packages, transport units, agents, "
     "family tree, internal state, inventories and pending schedule stored there. "
     "After a crash at any point, restarting from any completely written snapshot restores exactly the agents that were in the "
     "simulation at that step with the ids, parents, entry times, lifetimes, state and inventories they had, no id is ever given "
     "out twice, and builds and decommissionings that were pending then, and no others, take place. "
     "Run to its end, the restarted simulation repeats the remaining history of the original (agents, trades, schedules, records); "
     "a snapshot that cannot be read completely is refused.",
     ["crash_points", "histories", "configurations"],
     "for every population, agent state, inventory, history of builds, decommissionings and trades, every snapshot step and every "
     "crash point after the snapshot was written",
     "Tests initialise one fixed agent and never continue a restarted run; equivalence is over all histories, snapshots and crash points.",
     ["src/sim_init.cc", "src/sim_init.h", "src/timer.cc", "src/agent.cc", "src/query_backend.h", "src/context.cc"],
     [{"name": "snapshot", "where": "src/sim_init.cc SimInit::Snapshot, SnapAgent"},
      {"name": "restart", "where": "src/sim_init.cc SimInit::Restart, LoadInitialAgents, LoadInventories, LoadBuildSched, "
       "LoadDecomSched, LoadNextIds, LoadResource"}],
     world="restart", quick=(20000, 45), thorough=(2000000, 600),
     rule="one run = one simulation of 2-14 steps run without interruption, its database cut off at a seeded row, and one restart "
          "from a seeded snapshot; non-trivial when a restart took place",
     real=RREAL, stub="agents are scripted and decide by a fixed function of their state, id and time",
     observe=["agents, schedules, id counters and settings after initialisation and restart", "callbacks and output of both runs"],
     assumptions=["agents draw no random numbers (the generator's state is not part of a snapshot)",
                  "agents write their whole state in Snapshot and SnapshotInv", "snapshots of step 0 are only used to initialise",
                  "no two trades are equally preferred, so that results do not depend on the order of traders"],
     note="Crash injection and restart; refinement of the restarted run against the uninterrupted one.")

prop("P16", "The same input and seed reproduce the same simulation",
     "Two runs of the same input with the same seed produce identical output, whatever the clock, the contents of fresh memory and "
     "the process's earlier activity, including other simulations it ran before. "
     "Different seeds give different random numbers, and every random draw offered to agents lies in the range asked for and "
     "follows the requested distribution.",
     ["inputs", "histories", "configurations"],
     "for every simulation, seed, clock, memory content, heap layout and earlier history of the process",
     "Tests draw a few numbers from one fixed seed; reproducibility is over all inputs and environments.",
     ["src/random_number_generator.cc", "src/random_number_generator.h", "src/context.cc", "src/timer.cc", "src/sim_init.cc",
      "src/package.cc"],
     [{"name": "seeding", "where": "src/random_number_generator.cc RandomNumberGenerator::Initialize; src/context.cc Context::InitSim"},
      {"name": "draws", "where": "src/random_number_generator.cc, src/random_number_generator.h distributions"}],
     world="restart", quick=(20000, 30), thorough=(2000000, 600),
     rule="one run = the same simulation run twice in forked processes that differ in clock, memory fill, entropy, heap layout or "
          "earlier simulations, or one batch of draws; every run is non-trivial",
     real=RREAL + ", RandomNumberGenerator and its distributions", stub="agents are scripted; clock, entropy and memory contents are simulated",
     observe=["all output rows", "agent callbacks", "random draws"],
     assumptions=["simultaneous trades are compared up to their order when the heap layout differs",
                  "means of draws are compared within nine standard errors"],
     note="Twin executions under different environments, compared row by row.")

prop("P17", "The simulation that runs is the one the input file describes, or none",
     "The simulation set up from an input file, in either of the two layouts, has exactly the settings, recipes, packages, "
     "transport units, commodity priorities, prototypes, initial agents and family tree the file describes, whatever the order "
     "of its elements, white space, comments and number formats; each initial agent enters once, at step 0, and its parent is told once. "
     "Input that is torn, unreadable or invalid (malformed, wrong or missing elements, unknown names, numbers out of range, cyclic "
     "or unknown parents), and any failing database write or read while loading, stops the set-up or the run with an error; "
     "nothing is silently dropped, defaulted or run in its place.",
     ["inputs", "fault_sequences", "configurations"],
     "for every input file describing any number of entities in any order and layout, every invalid variation of it, and every "
     "failing write or read of the database while it is loaded",
     "Tests load one short fixed file; the guarantee covers all descriptions and every way they or the storage can be broken.",
     ["src/xml_file_loader.cc", "src/xml_flat_loader.cc", "src/sim_init.cc", "src/xml_parser.cc", "src/infile_tree.cc",
      "src/xml_file_loader.h", "src/context.cc"],
     [{"name": "loading", "where": "src/xml_file_loader.cc XMLFileLoader::LoadSim and Load*; src/xml_flat_loader.cc XMLFlatLoader"},
      {"name": "initialising", "where": "src/sim_init.cc SimInit::Init, LoadInfo, LoadRecipes, LoadPackages, LoadTransportUnits, "
       "LoadSolverInfo, LoadPrototypes, LoadInitialAgents"}],
     world="input", quick=(12000, 35), thorough=(1000000, 600),
     rule="one run = one drawn description written as an input file, loaded, initialised and (when valid) run to its end; "
          "non-trivial when it was set up or a fault was injected",
     real="XMLFileLoader, XMLFlatLoader, XMLParser, InfileTree, SimInit, Context, Recorder, SqliteBack (in-memory database), the "
          "exchange and the agent life cycle compiled from /repo's working tree; libxml2 and the RelaxNG schema of /repo's share/",
     stub="agents are scripted; failing database operations are injected by a wrapper around the real backend",
     observe=["SimInfo, recipes, packages, transport units, prototypes and agents after set-up", "a market step that shows the "
              "commodity priorities and solver settings", "errors", "the run's completion record"],
     assumptions=["agents' own configuration is read by the agent (scripted here)", "the greedy solver decides the market step"],
     note="Seeded search over input descriptions and input or storage faults, against the description itself as the model.")

prop("P18", "Explicit inventory records match what agents hold at every step",
     "With explicit inventories switched on, every step records for each agent present, inventory and nuclide exactly the mass of "
     "material held at that moment, each once and in kg; with compact ones, the total and the composition; inventories that hold no "
     "material are not recorded, and neither is anything when it is switched off. "
     "Recording inventories changes nothing else in the simulation or its output.",
     ["histories", "configurations"],
     "for every population, inventory content (empty, several materials, products, mixtures), history of builds, exits and trades, "
     "and both recording modes in any combination",
     "A single test checks one facility holding one material; the guarantee covers every inventory content at every step.",
     ["src/timer.cc", "src/timer.h"],
     [{"name": "recording", "where": "src/timer.cc Timer::RecordInventories, Timer::RecordInventory"}],
     world="restart", quick=(8000, 30), thorough=(1000000, 600),
     rule="one run = one simulation of 2-14 steps with the recording modes drawn, and its twin with recording off; non-trivial when "
          "an inventory was recorded",
     real=RREAL, stub="agents are scripted; the output backend is an in-memory list",
     observe=["ExplicitInventory and ExplicitInventoryCompact tables", "agent inventories at the end of each step",
              "all other output with and without recording"],
     assumptions=["agents return their current holdings from SnapshotInv"],
     note="Seeded search over histories; the recorded tables are compared with the agents' holdings and with a twin run.")
