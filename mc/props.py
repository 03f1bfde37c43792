"""Property texts: the source of properties.jsonl and MANIFEST.json (see tools/gen.py)."""
PROPS = {}


def P(id, title, statement, over, text, why, files, mech, note, technique='explicit-state exhaustive exploration of the implementation'):
    assert len(title) <= 80, title
    PROPS[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                     technique=technique)


SCHED_FILES = ['sampo/scheduler/generic.py', 'sampo/scheduler/timeline/just_in_time_timeline.py',
               'sampo/scheduler/timeline/momentum_timeline.py', 'sampo/scheduler/lft/base.py',
               'sampo/scheduler/genetic/converter.py']
SCHED_TEXT = ('every project (work graph, requirements, contractors, specification, landscape, start offset) and every scheduler: '
              'HEFT, HEFT-between, topological, LFT, their randomised variants and the genetic scheduler with both decoding schemes')
SCHED_NOTE = ('Exhaustive over the stated small-world families (up to 4 works, 2 worker kinds, 3 contractors) on the real schedulers, '
              'judged by an independent oracle; larger projects are covered only by the small-scope hypothesis.')

P('C01', 'Every schedule respects all dependencies and their lags',
  'In every schedule that any scheduler returns, each work starts no earlier than the finish time of each of its predecessors plus '
  'the lag of that dependency, and no work finishes before it starts. This holds for finish-start, lagged and inseparable '
  'dependencies, with priorities, specifications, zones and several contractors alike.',
  ['inputs', 'configurations'], SCHED_TEXT,
  'tests schedule a few fixed or randomly generated graphs, and validation ignores lags; nothing looks at all graph shapes, edge types and specs',
  SCHED_FILES + ['sampo/schemas/graph.py'],
  [('GraphNode.min_start_time', 'sampo/schemas/graph.py'), ('find_min_start_time_with_additional of both timelines', 'sampo/scheduler/timeline'),
   ('parallel/serial schedule generation schemes', 'sampo/scheduler/genetic/converter.py')], SCHED_NOTE)
P('C02', 'No contractor ever has more workers busy than it owns',
  'In every schedule that any scheduler returns, at every moment and for every contractor and worker kind, the number of workers '
  'held by the works in progress (an inseparable chain holds its team from its first start to its last finish) does not exceed '
  'the number that the contractor owns.',
  ['inputs', 'configurations'], SCHED_TEXT,
  'the resource timelines are reached only through a few schedules, with validation that samples the same code paths; overlaps need particular gap patterns',
  SCHED_FILES, [('interval bookkeeping', 'sampo/scheduler/timeline/momentum_timeline.py'),
                ('release stacks', 'sampo/scheduler/timeline/just_in_time_timeline.py')], SCHED_NOTE)
P('C03', 'Every team fits its work, and the work lasts as long as that team needs',
  'Every scheduled work is performed by workers of exactly its required kinds, all belonging to the one contractor recorded for '
  'it, each count within the required minimum and maximum and within what the contractor owns. Without a specified duration the '
  'work lasts exactly the time estimated for that team and its volumes; service works and the start and finish nodes take no '
  'time and no workers.',
  ['inputs', 'configurations'], SCHED_TEXT,
  'tests check teams of fixed graphs only; durations of chain members and of mixed teams are not compared with the estimate',
  SCHED_FILES + ['sampo/schemas/time_estimator.py', 'sampo/scheduler/utils/multi_contractor.py'],
  [('get_worker_borders', 'sampo/scheduler/utils/multi_contractor.py'), ('estimate_time', 'sampo/schemas/time_estimator.py')], SCHED_NOTE)
P('C04', 'Schedules are complete, chains are uninterrupted, the end is the maximum',
  'Every schedule contains every work of the graph exactly once together with the start and finish nodes. The works of an '
  'inseparable chain have one contractor and one team and follow each other immediately unless another predecessor forces the '
  'later one to wait. The finish node starts no earlier than any work finishes and ends at the latest finish time.',
  ['inputs', 'configurations'], SCHED_TEXT,
  'completeness is asserted on sampled graphs; the gap rule of chains with outside predecessors and lags is not tested at all',
  SCHED_FILES + ['sampo/schemas/schedule.py', 'sampo/scheduler/utils/__init__.py'],
  [('_schedule_with_inseparables', 'sampo/scheduler/timeline'), ('get_head_nodes_with_connections_mappings', 'sampo/scheduler/utils/__init__.py')], SCHED_NOTE)
P('C05', 'The schedule specification is honoured',
  'If the specification of a work names contractors, its contractor is one of them; if it names worker counts, the team has '
  'exactly these counts (the other kinds stay within the requirement); if it names a duration, the work (or its whole chain) '
  'works exactly that long. A work marked independent never runs at the same time as another work using the same contractor\'s '
  'workers of a kind it uses.',
  ['inputs', 'configurations'], 'every specification (contractors, full or partial worker counts, duration, independence, combined) on every project and scheduler',
  'tests use a handful of specs on one generated graph; partial counts, durations of chains and independence are not tested on most schedulers',
  SCHED_FILES + ['sampo/schemas/schedule_spec.py', 'sampo/scheduler/base.py', 'sampo/scheduler/resource'],
  [('optimize_resources_using_spec', 'sampo/scheduler/base.py'), ('WorkSpec.filter_contractors', 'sampo/schemas/schedule_spec.py'),
   ('get_exec_times_from_assigned_time_for_chain', 'sampo/scheduler/timeline/utils.py')], SCHED_NOTE)
P('C06', 'Infeasible projects are refused, feasible ones start at the requested time',
  'A scheduler reports that no contractor is sufficient exactly when some work cannot be performed by any single contractor that '
  'its specification allows; every other project gets a schedule. The start node is placed at the requested start time, and no '
  'work starts before it.',
  ['inputs', 'configurations'], SCHED_TEXT,
  'tests cover one infeasible and a few feasible contractor sets; start offsets are only checked for a few schedulers',
  SCHED_FILES + ['sampo/scheduler/utils/multi_contractor.py'], [('run_contractor_search', 'sampo/scheduler/utils/multi_contractor.py')], SCHED_NOTE)
P('C07', 'The interval timeline proposes the earliest free slot and never overbooks',
  'For any history of placements, the interval-based resource timeline proposes for a work the earliest moment, not before the '
  'requested one, from which the whole team stays free for the whole duration, and records exactly that interval. It answers that a '
  'work can start at a given moment exactly when the team is free from that moment for the duration; an independent work needs '
  'and takes the whole crews of its kinds.',
  ['histories'], 'every sequence of placements: single works, chains, lagged successors, specified durations, explicit starts, independent works',
  'tests place a few works in fixed order; slot search errors need particular patterns of partially overlapping busy intervals',
  ['sampo/scheduler/timeline/momentum_timeline.py', 'sampo/schemas/sorted_list.py', 'sampo/schemas/types.py'],
  [('find_min_start_time_with_additional', 'sampo/scheduler/timeline/momentum_timeline.py'), ('_find_earliest_time_slot', 'sampo/scheduler/timeline/momentum_timeline.py'),
   ('update_timeline', 'sampo/scheduler/timeline/momentum_timeline.py')],
  'All operation sequences up to depth 3-5 (quick) over 7-16 operations on crews of 2 drivers and 1 fitter, replayed on the real timeline against a brute-force occupancy table.',
  'exhaustive bounded exploration of operation sequences on the implementation against a reference model')
P('C08', 'The append-only timeline releases workers exactly when their works finish',
  'For any history of placements, the append-only resource timeline proposes for a work the moment when enough workers of every needed '
  'kind have been released and its predecessors have finished, and holds exactly its team until it finishes. It answers that a work can start at a '
  'given moment exactly when that is so; an independent work waits for all crews of its kinds and holds them all.',
  ['histories'], 'every sequence of placements: single works, chains, lagged successors, specified durations, later explicit starts, independent works',
  'tests place a few works in fixed order; release bookkeeping errors need particular sequences of partial crews',
  ['sampo/scheduler/timeline/just_in_time_timeline.py'],
  [('find_min_start_time_with_additional', 'sampo/scheduler/timeline/just_in_time_timeline.py'), ('update_timeline', 'sampo/scheduler/timeline/just_in_time_timeline.py')],
  'All operation sequences up to depth 3-5 (quick) over 6-12 operations on crews of 3 drivers and 2 fitters, replayed on the real timeline against a table of single-worker release times.',
  'exhaustive bounded exploration of operation sequences on the implementation against a reference model')
P('C09', 'Works get their zones in the required status, with time to change it',
  'At no moment do two works run that require different statuses of one zone, and between works that require different statuses '
  '(and between the project start and the first one) there is at least the time to change the status. Every change is recorded with its '
  'cost as duration, from the status that the zone really had, and never during a work that needs the zone; required final statuses are reached.',
  ['histories', 'inputs'], 'every sequence of works with required zone statuses, every cost matrix and initial status, on the zone timeline and in every scheduler',
  'tests use one zone with unit costs and a fixed sequence',
  ['sampo/scheduler/timeline/zone_timeline.py', 'sampo/schemas/zones.py', 'sampo/scheduler/genetic/converter.py', 'sampo/scheduler/generic.py'],
  [('ZoneTimeline', 'sampo/scheduler/timeline/zone_timeline.py'), ('finish_statuses', 'sampo/scheduler/timeline/zone_timeline.py')],
  'All placement sequences up to depth 4 (one zone) and 3 (two zones) over 6 operations, 3 cost matrices; all 3-work worlds with zone requirements on every scheduler.',
  'exhaustive bounded exploration of operation sequences on the implementation against a reference model')
GEN_FILES = ['sampo/scheduler/genetic/operators.py', 'sampo/scheduler/genetic/converter.py', 'sampo/scheduler/genetic/schedule_builder.py', 'sampo/scheduler/genetic/utils.py']
P('C11', 'Genetic operators keep chromosomes valid, complete and independent',
  'Crossover and mutation of valid chromosomes give valid chromosomes: an order of all works that respects dependencies and priorities, teams within '
  'the needs of the work and the limits of an allowed contractor. Parents stay unchanged and share no data with their children, every gene of a child of a crossover '
  'comes from one of its parents, and without priorities order mutation can reach every allowed order.',
  ['inputs', 'histories'], 'every small project, every valid chromosome or pair of chromosomes, every sequence of random choices of the operators',
  'tests run the operators a few times with one random seed on one large project and check validity only',
  GEN_FILES, [('mutate_scheduling_order_core', 'sampo/scheduler/genetic/operators.py'), ('mate_scheduling_order', 'sampo/scheduler/genetic/operators.py'),
              ('mutate_resources', 'sampo/scheduler/genetic/operators.py'), ('mate_resources', 'sampo/scheduler/genetic/operators.py'),
              ('is_chromosome_correct', 'sampo/scheduler/genetic/operators.py')],
  'The random generator is replaced by an explorer that enumerates every answer vector (bounded departures in the larger families); all valid orders and teams of works of 2-4 works.',
  'exhaustive exploration of all random choices of the implementation')
P('C12', 'A chromosome is decoded into exactly the schedule it describes',
  'Both decoding schemes turn every valid chromosome into the schedule that its scheme defines: the works are placed in the given order (serial) or at the earliest '
  'moments when the first placeable work fits (parallel), with the teams and contractors of the chromosome. The converted schedule is converted back to the same order, teams and '
  'contractors; an invalid chromosome is given an infinite fitness instead of a schedule.',
  ['inputs', 'configurations'], 'every small project and every valid order and team assignment, with tight limits, start offsets and specifications',
  'tests decode one chromosome per fixture and only check that the finish is finite',
  GEN_FILES + ['sampo/scheduler/timeline/general_timeline.py'], [('serial_schedule_generation_scheme', 'sampo/scheduler/genetic/converter.py'),
              ('parallel_schedule_generation_scheme', 'sampo/scheduler/genetic/converter.py'), ('convert_schedule_to_chromosome', 'sampo/scheduler/genetic/converter.py')],
  'All chromosomes (orders x teams x contractors) of all worlds of up to 3 works; compared with an independently written serial and parallel decoder.',
  'exhaustive bounded enumeration of chromosomes on the implementation against a reference decoder')
P('C13', 'Genetic search returns the best individual it evaluated, reproducibly',
  'The returned schedule has the best fitness of all individuals that the search evaluated, so it is never worse than its initial heuristics; with several objectives the returned schedules do '
  'not dominate each other. If any evaluated individual meets the deadline then so does the result. Equal seeds give equal searches, and hybrid search returns the best individual of its cycle.',
  ['histories', 'configurations'], 'every bounded departure of the random choices of a whole search from the default ones, for both decoding schemes, all fitness functions, deadlines and plateau limits',
  'tests run a handful of random searches and cannot see the individuals that were lost on the way',
  GEN_FILES + ['sampo/scheduler/genetic/base.py', 'sampo/hybrid/cycle.py', 'sampo/hybrid/population.py', 'sampo/backend/default.py'],
  [('build_schedules_with_cache', 'sampo/scheduler/genetic/schedule_builder.py'), ('GeneticScheduler.schedule_with_cache', 'sampo/scheduler/genetic/base.py'),
   ('CycleHybridScheduler', 'sampo/hybrid/cycle.py')],
  'Whole searches (population 4-5, 0-4 generations) on 4 worlds: every single departure among the first 24 (quick) or all (thorough) random answers; one departure is the bound.',
  'exhaustive exploration of bounded departures of random choices of the implementation')
P('C10', 'Materials are at hand when works start; depots and vehicles are never overdrawn',
  'Every work starts with all its materials on its platform: what is stored there initially plus what has been delivered by then covers what all works started by then have taken, '
  'and every delivery arrives before its work starts and takes at least the travel time. A depot never gives more than it stores nor has more vehicles out than it owns, '
  'a platform never stores more than its capacity, and a project whose materials suffice is not refused.',
  ['histories', 'inputs'], 'every history of deliveries at any requested moments on the supply timeline, and every small project with materials in every scheduler',
  'the tests with materials check only that a schedule is built; overdrawing needs particular orders of requested moments',
  ['sampo/scheduler/timeline/hybrid_supply_timeline.py', 'sampo/scheduler/timeline/platform_timeline.py', 'sampo/schemas/landscape.py'],
  [('HybridSupplyTimeline._supply_resources', 'sampo/scheduler/timeline/hybrid_supply_timeline.py'), ('PlatformTimeline', 'sampo/scheduler/timeline/platform_timeline.py')],
  'All delivery histories up to length 3 (quick) or 4 (thorough) over 4-5 works and 2-4 requested moments on 4 landscapes; all 3-work projects with materials on 7 schedulers. Road usage is judged only on landscapes with one road.',
  'exhaustive bounded exploration of operation sequences on the implementation against a ledger')
P('C14', 'Scheduling changes nothing and equal calls give equal schedules',
  'Scheduling leaves the work graph, contractors, specification and landscape that it was given unchanged. Calling a deterministic scheduler again, on an equal project, after any other '
  'projects or in another process gives the same schedule; seeded randomised schedulers do so when they are created anew.',
  ['inputs', 'histories'], 'every small project with and without specification, zones and several contractors; every history of projects on one scheduler object; several hash seeds',
  'tests share module-level fixtures and never compare inputs before and after, nor results between processes',
  SCHED_FILES + ['sampo/scheduler/base.py', 'sampo/scheduler/heft/base.py', 'sampo/scheduler/topological/base.py'],
  [('GenericScheduler.schedule_with_cache', 'sampo/scheduler/generic.py'), ('get_worker_contractor_pool', 'sampo/scheduler/utils/__init__.py')],
  'All families of small projects on all schedulers, all histories of 3 (thorough 4) out of 6 projects, 3-6 hash seeds of child processes.',
  'exhaustive bounded enumeration of inputs and call histories on the implementation')
P('C15', 'Validation accepts exactly the schedules that keep the rules',
  'The schedule validator rejects every schedule in which a work is missing, starts before a predecessor\'s finish plus lag, ends before it starts, has a team that does not fit its requirement, '
  'a contractor that its specification forbids, is a service work with a duration, or in which a contractor\'s workers are overused. It accepts all others.',
  ['inputs'], 'every schedule of small projects: any start moments, durations, teams and contractors',
  'tests corrupt a few schedules in a few ways; whether every combination of overlaps and gaps is judged rightly needs all of them',
  ['sampo/utilities/validation.py'], [('validate_schedule', 'sampo/utilities/validation.py'),
   ('check_all_allocated_workers_do_not_exceed_capacity_of_contractors', 'sampo/utilities/validation.py')],
  'All schedules of 2 works over 5 starts x 5 durations x contractors and over 16 teams, and of 3 overlapping works; the verdict is compared with the rules on plain numbers.',
  'exhaustive bounded enumeration of schedules on the implementation against reference rules')
P('C16', 'Restructuring keeps all work and enforces every relation between works',
  'Restructuring replaces every work by an inseparable chain of stages that together have exactly its volume and requirements and keep its other attributes; the original graph stays unchanged. '
  'Every start-start, finish-finish and overlapping relation becomes an edge from the stage that completes the needed share to the stage that has to wait, and nothing else is added. '
  'Priorities are lowered just enough to respect the edges.',
  ['inputs'], 'every graph over finish-start, inseparable, start-start, finish-finish and overlapping edges with any lags, with and without lag optimisation',
  'tests count the stages of one hand-made graph and never look at the edges between the stages',
  ['sampo/structurator/base.py', 'sampo/utilities/priority.py'], [('graph_restructuring', 'sampo/structurator/base.py'), ('split_node_into_stages', 'sampo/structurator/base.py'),
   ('check_and_correct_priorities', 'sampo/utilities/priority.py')],
  'All graphs of 2-4 works over up to 11 edge kinds (two relations between one pair included), with and without lag optimisation; the stage graph is derived independently.',
  'exhaustive bounded enumeration of graphs on the implementation against a reference derivation')
P('C17', 'Graph edits do exactly what they say and leave the original alone',
  'Copying, renumbering, inserting a work, deleting a work (with its whole chain) and inserting a graph into a graph give a new graph with exactly the works, attributes, edges and lags '
  'that follow from the edit, and leave the original unchanged and unshared. After a deletion the remaining works are ordered as before. The new graph is consistent: '
  'both sides of every edge, the queries, the order of the works and the index agree.',
  ['inputs'], 'every small graph over six edge kinds and every edit of it: any deleted work, any parents and children of an insertion, any pair of works for a graph insertion',
  'tests make one edit of one generated graph and look at one property of the result',
  ['sampo/structurator/prepare_wg_copy.py', 'sampo/structurator/delete_graph_node.py', 'sampo/structurator/insert_wu.py', 'sampo/structurator/graph_insertion.py', 'sampo/structurator/light_modifications.py'],
  [('prepare_work_graph_copy', 'sampo/structurator/prepare_wg_copy.py'), ('delete_graph_node', 'sampo/structurator/delete_graph_node.py'),
   ('insert_work_unit', 'sampo/structurator/insert_wu.py'), ('graph_in_graph_insertion', 'sampo/structurator/graph_insertion.py')],
  'All graphs of 3 works over 6 edge kinds and of 4 works over 2 (thorough 3) with all edits; the expected result is derived on plain sets.',
  'exhaustive bounded enumeration of graphs and edits on the implementation against set operations')
P('C18', 'What is saved, pickled or copied comes back complete',
  'A work, work graph, contractor, resource, moment, schedule or scheduled project that is saved as text, dictionary or file and loaded, is pickled and unpickled, or is deeply copied has '
  'the same content as before: ids, attributes, requirements, edges, times, teams, costs. Saving does not change the original, what was saved can be loaded repeatedly, and a restored project '
  'is scheduled in the same way.',
  ['inputs'], 'every combination of requirements of a work, every small graph over all edge kinds, every small schedule, every way of saving',
  'tests check that serialisation does not fail and look at a few counters of one random graph',
  ['sampo/schemas/serializable.py', 'sampo/schemas/works.py', 'sampo/schemas/graph.py', 'sampo/schemas/schedule.py', 'sampo/schemas/scheduled_work.py', 'sampo/schemas/contractor.py',
   'sampo/schemas/project.py', 'sampo/utilities/serializers.py'],
  [('AutoJSONSerializable', 'sampo/schemas/serializable.py'), ('WorkGraph._deserialize', 'sampo/schemas/graph.py'), ('Schedule._deserialize', 'sampo/schemas/schedule.py')],
  'All combinations of 0-2 requirements of 5 kinds, all graphs of 3 works over 7 edge kinds and of 4 over 2-3, schedules of small worlds; 7 ways of saving each. Worker productivity is not saved as text by design.',
  'exhaustive bounded enumeration of objects on the implementation, compared before and after')
P('C19', 'Work graphs answer by their edges, whenever and however these were added',
  'After any sequence of added edges, with any queries in between and any other graphs with equal ids around, predecessors, successors, neighbours and inseparable chains of every work are exactly '
  'those that its edges give. A graph made of works has exactly their edges plus a start before the works without predecessors and a finish after those without successors, '
  'lists its works in topological order, finds each by its id, and its table shows every work with its edges and requirements.',
  ['histories', 'inputs'], 'every order of adding edges of every kind, queries in between, pairs of graphs with equal ids, every small graph',
  'tests build graphs once and never add edges after queries; cached answers go wrong only in such histories',
  ['sampo/schemas/graph.py'], [('GraphNode.add_parents', 'sampo/schemas/graph.py'), ('WorkGraph.from_nodes', 'sampo/schemas/graph.py'), ('WorkGraph.to_frame', 'sampo/schemas/graph.py')],
  'All sequences of up to 4 of 8 (thorough 11) edges, all graphs of 3 works over 6 edge kinds, all pairs of graphs of 3 works; replayed on the real graph and compared with edge lists.',
  'exhaustive bounded exploration of operation sequences on the implementation')
P('C24', 'A project read from a table is the project that the table describes',
  'Whatever the order of the rows, the style of the ids, the columns and cells left out, and whether a file or a data frame is given: the graph has exactly the works, attributes, requirements, '
  'relations, types and lags of the table, left-out types and lags mean plain relations, and the given table stays as it is. Relations in a loop are dropped by breaking each loop at its weakest, all others are kept. '
  'Contractors have exactly the crews of their table or, if none is given, crews that can perform the graph.',
  ['inputs'], 'every small graph in every layout of a table, every directed graph with loops and weights, every small table of contractors',
  'one test reads one table of four works and checks that this does not fail',
  ['sampo/userinput/parser/csv_parser.py', 'sampo/userinput/parser/general_build.py', 'sampo/pipeline/preparation.py', 'sampo/generator/environment/contractor_by_wg.py', 'sampo/utilities/name_mapper.py'],
  [('CSVParser.work_graph', 'sampo/userinput/parser/csv_parser.py'), ('preprocess_graph_df', 'sampo/userinput/parser/general_build.py'), ('break_loops_in_input_graph', 'sampo/userinput/parser/general_build.py'),
   ('PreparationPipeline', 'sampo/pipeline/preparation.py'), ('get_contractor_by_wg', 'sampo/generator/environment/contractor_by_wg.py')],
  'All graphs of 3 works over 5 edge kinds times table layouts; all 4096 directed graphs of 4 works (8+ weightings thorough) and all weightings of 3 for breaking loops; tables of contractors.',
  'exhaustive bounded enumeration of tables on the implementation against the graph they describe')
P('C20', 'Times and intervals compute as the numbers they stand for',
  'Times behave as whole numbers that saturate at infinity: every arithmetic operation, comparison, hash, conversion and copy of times and plain numbers, in any order and sequence, gives the number that arithmetic gives. '
  'Numbers drawn from an interval lie in its boundary and are the drawn value moved to the nearest bound, whatever the random source answers.',
  ['inputs', 'histories'], 'all pairs and short sequences of boundary values, all intervals over a grid of bounds, every answer of the random source',
  'no test of the suite covers times or intervals directly; overflow and rounding need the extreme values',
  ['sampo/schemas/time.py', 'sampo/schemas/interval.py'], [('Time', 'sampo/schemas/time.py'), ('IntervalGaussian', 'sampo/schemas/interval.py'), ('IntervalUniform', 'sampo/schemas/interval.py')],
  'Boundary values instead of all integers; random sources answer with 3-4 values per draw.',
  'exhaustive bounded enumeration of operation sequences and random answers on the implementation')
P('C25', 'Queues and lists of the scheduler behave as plain lists',
  'The linked list that the schedule generation walks, the priority queue, the sorted list with merging and the queue of transformations hold exactly what a plain list would hold after the same operations, in the same order, '
  'whatever sequence of additions, removals, replacements and walks is applied.',
  ['histories'], 'all sequences of operations up to a depth of 4 to 8',
  'tests only fill and drain one queue',
  ['sampo/utilities/linked_list.py', 'sampo/utilities/priority_queue.py', 'sampo/schemas/sorted_list.py', 'sampo/schemas/apply_queue.py', 'sampo/utilities/collections_util.py'],
  [('LinkedList', 'sampo/utilities/linked_list.py'), ('PriorityQueue', 'sampo/utilities/priority_queue.py'), ('ExtendedSortedList.merge', 'sampo/schemas/sorted_list.py'), ('ApplyQueue', 'sampo/schemas/apply_queue.py')],
  'Depths 4-6 (thorough 6-8) over small alphabets of values; keys of the sorted list are unique as its contract demands.',
  'exhaustive bounded exploration of operation sequences on the implementation against a list model')
P('C22', 'Durations follow from requirements, crew and productivity',
  'A work takes as long as its slowest requirement: its volume divided by the productivity of the crew, rounded up; it never ends if the crew is too small or cannot produce, and ends at once without requirements. '
  'More workers never take longer, the order of workers and requirements does not matter, and a chain of inseparable works takes the sum of its parts. Nothing given is changed.',
  ['inputs', 'configurations'], 'all requirements, crews, productivities (by kind and contractor, fixed and drawn) on a grid, all short chains',
  'no test computes a duration by hand; rounding, crew bounds and per-contractor productivity only matter for particular numbers',
  ['sampo/schemas/time_estimator.py', 'sampo/scheduler/utils/time_computaion.py'], [('DefaultWorkEstimator.estimate_time', 'sampo/schemas/time_estimator.py'), ('communication_coefficient', 'sampo/schemas/time_estimator.py'),
   ('calculate_working_time_cascade', 'sampo/scheduler/utils/time_computaion.py')],
  'Grid of volumes up to 100 (thorough 10^6), crews up to 6 (thorough 10), chains up to 3; floating-point rounding at exact integers is tolerated either way.',
  'exhaustive bounded enumeration of inputs on the implementation against exact rational arithmetic')
P('C21', 'Works are ordered by the rule of the scheduler and never against the graph',
  'The order in which a scheduler places works contains every work or inseparable chain once, no work before a predecessor, and lower priority groups first, whatever the random source answers. '
  'HEFT orders by the longest remaining path, LFT by the latest finish and shares the works evenly among contractors with the largest crews they have, and the critical path is a longest path through the project. '
  'Corrected priorities are lowered just as far as successors demand, in a time that does not explode.',
  ['inputs', 'configurations'], 'every small project with lags, chains and priorities, every random answer of the randomised rules',
  'tests schedule a few graphs and never look at the order or at the choice of contractors',
  ['sampo/scheduler/heft/prioritization.py', 'sampo/scheduler/lft/base.py', 'sampo/scheduler/lft/prioritization.py', 'sampo/scheduler/topological/base.py', 'sampo/scheduler/utils/critical_path.py', 'sampo/utilities/priority.py',
   'sampo/scheduler/utils/__init__.py'],
  [('prioritization', 'sampo/scheduler/heft/prioritization.py'), ('lft_prioritization', 'sampo/scheduler/lft/prioritization.py'), ('LFTScheduler._contractor_workers_assignment', 'sampo/scheduler/lft/base.py'),
   ('ford_bellman', 'sampo/scheduler/utils/critical_path.py'), ('get_head_nodes_with_connections_mappings', 'sampo/scheduler/utils/__init__.py')],
  'Projects of 3-4 works. Ties may be broken in any way. With several priority groups only validity and group order are judged for HEFT.',
  'exhaustive bounded enumeration of projects and random answers on the implementation against reference paths')
P('C29', 'Every view of a schedule tells the same story',
  'The table of a schedule has one row per work with its times, duration, crew, contractor, volume and cost, ordered by start and never against the graph; the table without service works, the list, the dictionary and the total time agree with it. '
  'Merging the stages of a work, with or without calendar dates, gives one work with their whole span, volume, cost, zone changes and deliveries. No view changes the schedule, and no part of it depends on the process.',
  ['inputs', 'programs'], 'all small schedules in every order of works, works of up to 12 stages, all restructured graphs of 3 works',
  'the tests only access the views; sums over stages, ties of start times and hash order need many schedules',
  ['sampo/schemas/schedule.py', 'sampo/utilities/schedule.py', 'sampo/schemas/project.py', 'sampo/schemas/scheduled_work.py'],
  [('Schedule', 'sampo/schemas/schedule.py'), ('fix_split_tasks', 'sampo/utilities/schedule.py'), ('merge_split_stages', 'sampo/utilities/schedule.py'), ('ScheduledProject', 'sampo/schemas/project.py')],
  'Schedules of 3 works plus stages; volumes and costs from a small grid; dates without time of day.',
  'exhaustive bounded enumeration of schedules on the implementation against sums over the scheduled works')
P('C33', 'Resource usage, costs and fitness values are what the schedule says',
  'The usage of each kind of workers at any moment is the number of workers whose work is going on; the peaks, sums and costs follow from it, for all kinds or the chosen ones. '
  'Each fitness value is the documented combination of finish time, peaks, sums or costs, raised in proportion when a deadline is missed, and infinite when there is no schedule.',
  ['inputs', 'configurations'], 'all small sets of works with intervals and crews, all selections of kinds, deadlines on both sides of the finish',
  'no test computes a metric by hand; boundaries of touching works and selections only matter in particular schedules',
  ['sampo/utilities/resource_usage.py', 'sampo/scheduler/genetic/operators.py', 'sampo/schemas/scheduled_work.py'],
  [('get_total_resources_usage', 'sampo/utilities/resource_usage.py'), ('resources_costs_sum', 'sampo/utilities/resource_usage.py'), ('DeadlineResourcesFitness', 'sampo/scheduler/genetic/operators.py')],
  'Up to 3 (thorough 4) works on 7 intervals, two kinds of workers, two time scales.',
  'exhaustive bounded enumeration of schedules on the implementation against a point-by-point count')
P('C34', 'Scheduling to a deadline meets it whenever the crews can',
  'The search for crews that just meet a deadline returns a valid schedule that meets it whenever the smallest crews, the whole crews or any share that it tried meet it, and otherwise the earliest finish it saw; of the shares that meet it the one with the latest finish is used, and a share one twentieth smaller was seen to miss it. '
  'If the smallest crews meet it, the smallest crews are used. It refuses only if every share is refused, keeps the specification and changes none of its inputs.',
  ['inputs', 'configurations'], 'all small projects and specifications under all deadlines around the reachable finish times',
  'tests try one deadline on a few graphs and only print the result',
  ['sampo/scheduler/resources_in_time/average_binary_search.py', 'sampo/scheduler/resource/average_req.py'],
  [('AverageBinarySearchResourceOptimizingScheduler', 'sampo/scheduler/resources_in_time/average_binary_search.py'), ('AverageReqResourceOptimizer', 'sampo/scheduler/resource/average_req.py')],
  'Projects of 2-4 works; deadlines within 1 of the finishes of smallest and whole crews, the midpoint, 1 and no deadline.',
  'exhaustive bounded enumeration of projects and deadlines on the implementation, comparing all probes of the search')
P('C32', 'Local optimizers return valid orders and schedules',
  'Swapping works of an order exchanges only independent works inside the given area, so that every work (with its whole inseparable chain) stays after its predecessors, and finds an exchange whenever there is one. '
  'Parallelizing a schedule returns a valid schedule of the same works by the same contractors, whose times and teams obey the dependencies, crews, limits, specification, zones and project start. '
  'It leaves the given schedule unchanged, and changes teams only inside the area.',
  ['inputs', 'schedules'], 'every small graph with inseparable chains, all of its orders and all areas; schedules of all small projects with specifications and zones, both timelines',
  'tests run both optimizers on generated graphs once and only print how many works are scheduled',
  ['sampo/scheduler/utils/local_optimization.py'],
  [('get_swap_candidates', 'sampo/scheduler/utils/local_optimization.py'), ('SwapOrderLocalOptimizer', 'sampo/scheduler/utils/local_optimization.py'),
   ('ParallelizeScheduleLocalOptimizer', 'sampo/scheduler/utils/local_optimization.py')],
  'All graphs of 3-4 works (thorough: 5) with every order and area; schedules of worlds of 2-3 works, five areas each.',
  'exhaustive bounded enumeration of orders, areas and schedules on the implementation against an independent judge')
P('C28', 'The pipeline gives exactly what its settings mean',
  'A project of the pipeline is the schedule that the chosen scheduler gives for the restructured graph, contractors, specification, landscape and project start; the automatic strategy takes the better of both. '
  'The specification of a work applies to all of its stages, the relations between the original works hold in the final schedule, and local optimizers are applied one after another. '
  'It refuses exactly if some work has no able contractor, generates contractors as asked, can be repeated and leaves its inputs unchanged.',
  ['inputs', 'configurations'], 'every small project over nine edge kinds with every specification, strategy, scheduler, project start, source of data and sequence of optimizers',
  'tests run the pipeline on generated graphs and only print the number of works',
  ['sampo/pipeline/default.py', 'sampo/pipeline/delegating.py', 'sampo/pipeline/preparation.py', 'sampo/schemas/apply_queue.py', 'sampo/schemas/project.py', 'sampo/generator/environment/contractor_by_wg.py'],
  [('DefaultInputPipeline', 'sampo/pipeline/default.py'), ('DefaultSchedulePipeline', 'sampo/pipeline/default.py'), ('PreparationPipeline', 'sampo/pipeline/preparation.py'),
   ('ApplyQueue', 'sampo/schemas/apply_queue.py')],
  'Projects of 2-3 works, nine edge kinds, seven specifications, all strategies, all pairs of eight crews, up to three optimizers in a row.',
  'exhaustive bounded enumeration of pipelines on the implementation against direct scheduling and recording optimizers')
P('C26', 'Searches for crew sizes stay within their borders and spoil nothing',
  'Every search for the size of a crew asks only about and leaves only crews between the smallest and the largest one, keeps the counts that may not change, and ends; borders, pool and workers are not changed otherwise. '
  'If more workers never finish later, the crew found finishes no later than the largest one less one worker of each kind; a search along one kind ends at most one worker from the only best count, and shares of the crew are the smallest one plus that share of the difference.',
  ['inputs', 'configurations'], 'all functions from crews to finish times on small grids, all borders, masks of changeable kinds, given crews and shares',
  'no test calls an optimizer of resources directly; the result depends on the shape of the finish times over all crews',
  ['sampo/scheduler/resource/coordinate_descent.py', 'sampo/scheduler/resource/full_scan.py', 'sampo/scheduler/resource/average_req.py', 'sampo/scheduler/resource/identity.py', 'sampo/utilities/base_opt.py'],
  [('CoordinateDescentResourceOptimizer', 'sampo/scheduler/resource/coordinate_descent.py'), ('FullScanResourceOptimizer', 'sampo/scheduler/resource/full_scan.py'), ('AverageReqResourceOptimizer', 'sampo/scheduler/resource/average_req.py'),
   ('dichotomy_int', 'sampo/utilities/base_opt.py'), ('coordinate_descent', 'sampo/utilities/base_opt.py')],
  'One kind: 4 finish times on up to 8 crews (thorough 10); two and three kinds: 2-3 finish times on up to 9 (thorough 10) crews; larger ranges with every place of the best crew. Nothing is claimed about the quality for finish times of arbitrary shape.',
  'exhaustive bounded enumeration of finish-time functions on the implementation, every asked crew monitored')
P('C27', 'Searching with several processes is the same search',
  'For any number of processes the values computed for chromosomes are, in their order, exactly those of the project, objective and settings announced last, invalid chromosomes included, and the '
  'chromosomes stay unchanged. The first population has the requested size, consists of valid individuals that keep the specification, holds the favoured heuristics with their order and teams, '
  'and follows the weights and the chosen initialization. Equal seeds give equal populations and searches with any number of processes, and every search returns a valid schedule.',
  ['configurations', 'inputs'], 'every small project and setting announced in any sequence, to the default backend and to one to three processes, all objectives, weights and kinds of initialization',
  'the only test of the backend prints the time of one run; a population of invalid individuals only makes the search worse',
  ['sampo/backend/default.py', 'sampo/backend/multiproc.py', 'sampo/scheduler/genetic/utils.py', 'sampo/schemas/time_estimator.py'],
  [('MultiprocessingComputationalBackend', 'sampo/backend/multiproc.py'), ('DefaultComputationalBackend', 'sampo/backend/default.py'), ('DefaultWorkEstimator.get_recreate_info', 'sampo/schemas/time_estimator.py')],
  'Projects of 2-3 works; populations of 6 and lists of up to 24 chromosomes; sequences of two (thorough three) announcements; one seed per setting. Interleavings of the processes are not controlled: they share nothing.',
  'exhaustive bounded enumeration of projects, settings and announcement histories on the implementation against direct evaluation')
P('C31', 'Blocks given to agents are built in order, once, by the fastest able agent',
  'Every block of a block graph is done exactly once, by an agent that can do it and finishes it earliest among all agents given what each has booked before; it starts after its parent blocks end, its '
  'schedule is a valid schedule of that block, and the crews of an agent are never overbooked over its blocks together. Agents unable to do a block do not take part, and only if no agent is able the '
  'manager refuses. Merging a block graph orders exactly the works that blocks and block graph order, and unforeseen works are inserted as a whole between start and finish of the block.',
  ['inputs', 'histories', 'configurations'], 'every small block graph, every shape of the blocks, every pool of agents with every scheduler, every point at which unforeseen works can be inserted',
  'the tests of the agents are not even collected; they look at two hand-made situations',
  ['sampo/scheduler/multi_agency/multi_agency.py', 'sampo/scheduler/multi_agency/block_graph.py', 'sampo/scheduler/utils/obstruction.py', 'sampo/scheduler/multi_agency/block_validation.py'],
  [('Manager.run_auction', 'sampo/scheduler/multi_agency/multi_agency.py'), ('Agent.offer', 'sampo/scheduler/multi_agency/multi_agency.py'),
   ('BlockGraph.to_work_graph', 'sampo/scheduler/multi_agency/block_graph.py'), ('OneInsertObstruction.apply', 'sampo/scheduler/utils/obstruction.py')],
  'Two or three blocks of one or two works (merging: up to four), pools of up to three agents; the networks of the predicting manager are replaced by every constant prediction, as torch is not installed.',
  'exhaustive bounded enumeration of block graphs and agent pools on the implementation against an independent judge and a replay of the auctions')
P('C23', 'Ways through the road network exist, are available and are the shortest',
  'The way between two places consists of adjoining roads from the first place to the second, uses only roads that are available, is not longer than any other such way, and is empty exactly if '
  'there is none, also with parallel roads. The depots offered to a place are exactly those that can be reached, nearest first. The network consists of exactly the places, roads, stocks and '
  'vehicles that were described, in whatever order and direction they were given.',
  ['inputs', 'configurations'], 'every small network, every set of available roads, every pair of places, every way of describing the network',
  'the few landscapes of the tests have one road per pair of places and no road is ever unavailable',
  ['sampo/schemas/landscape.py', 'sampo/schemas/landscape_graph.py', 'sampo/generator/environment/landscape.py'],
  [('LandscapeConfiguration.construct_route', 'sampo/schemas/landscape.py'), ('LandscapeConfiguration._build_routes', 'sampo/schemas/landscape.py'),
   ('LandGraph._to_adj_matrix', 'sampo/schemas/landscape_graph.py'), ('setup_landscape', 'sampo/generator/environment/landscape.py')],
  'Networks of 2-4 places exhaustively with two or three lengths per pair, up to three parallel roads per pair for 2-3 places, a fixed part of those of 5 places.',
  'exhaustive bounded enumeration of networks and sets of available roads on the implementation against all simple ways')
P('C30', 'Generated projects are sound, keep the requested limits and follow the seed',
  'Every generated project is a sound work graph of the requested kind with the requested number of clusters, at least the lower or, if that is not given, at most the upper number of works; generated '
  'materials, contractors, names and resource kinds keep their borders and change nothing else. A generated landscape has one place for every work, able to hold its materials and connected to every '
  'depot, so that the project can be scheduled, and generated block graphs have the requested blocks in the requested order. Equal seeds give equal data in every process.',
  ['inputs', 'configurations'], 'every answer of the random generator that is asked for, every setting of kinds, borders and counts, every small project given to the landscape generator',
  'the generators are only used as sources of test data; nothing looks at what they promise',
  ['sampo/generator/base.py', 'sampo/generator/pipeline/project.py', 'sampo/generator/pipeline/extension.py', 'sampo/generator/environment/contractor.py',
   'sampo/generator/environment/landscape.py', 'sampo/utilities/sampler/requirements.py', 'sampo/scheduler/multi_agency/block_generator.py'],
  [('get_graph', 'sampo/generator/pipeline/project.py'), ('SimpleSynthetic', 'sampo/generator/base.py'), ('get_landscape_by_wg', 'sampo/generator/environment/landscape.py'),
   ('get_contractor', 'sampo/generator/environment/contractor.py')],
  'One departure from the base answers (four answers per draw; several base runs), two among the first five draws; upper limits of at least 60 works, as the smallest generated project has about 50.',
  'stateless exploration of the answers of the random generator on the implementation, with bounded departures, against the stated limits')
P('C35', 'Links missing in a table are those that the history of projects shows',
  'Works that the history saw in one project get linked in the direction it saw at least as often as the other: finish-start if it saw that more often than start-start and never otherwise overlapping, start-start if that prevails, overlapping else, '
  'with the smallest share of the earlier work it saw, outliers aside. Links given in the table stay as they are, or get what the history says about them if that is wanted; works that the history never saw together get no link. '
  'Loops are broken at the link seen least often, a given link only if all links of the loop are given; table and history stay unchanged, and may be files.',
  ['inputs', 'configurations'], 'all histories of a few projects with all relations of the dates of two or three works, given links, switches, orders of rows and sources',
  'tests only read a table with all links given and an empty history',
  ['sampo/userinput/parser/history.py', 'sampo/userinput/parser/csv_parser.py', 'sampo/userinput/parser/general_build.py'],
  [('get_all_seq_statistic', 'sampo/userinput/parser/history.py'), ('gather_links_types_statistics', 'sampo/userinput/parser/history.py'), ('set_connections_info', 'sampo/userinput/parser/history.py')],
  'Two works with up to three (equal: 14) sightings, three works with all given links; with both switches on, nothing is claimed about the type of given links that the history never saw.',
  'exhaustive bounded enumeration of histories on the implementation against an independent count')
P('C36', 'Sub-works come up as often as stated, after the work they belong to',
  'A sub-work is added to a work with exactly the probability stated last for the two, independently of all others: never at 0, always at 1, and never for service works or works without probabilities. '
  'It has its own id and name, the volume the generator gives and the crews estimated for it, zone requirements and priority of its work, follows it, and ends before the project does, so that the project can be scheduled. '
  'The given project and table are unchanged, all its works and links are in the new project, and the preparation of projects hands out the same.',
  ['inputs', 'configurations', 'histories'], 'every answer of the random generator, all small tables of probabilities, all small projects, every sequence of announcements',
  'no test uses the estimator of structures; a wrong probability shows only over all answers of the random generator',
  ['sampo/schemas/structure_estimator.py', 'sampo/structurator/prepare_wg_copy.py', 'sampo/pipeline/preparation.py'],
  [('DefaultStructureEstimator.restruct', 'sampo/schemas/structure_estimator.py'), ('DefaultStructureGenerationEstimator', 'sampo/schemas/structure_estimator.py'), ('prepare_work_graph_copy', 'sampo/structurator/prepare_wg_copy.py')],
  'Projects of 2-3 works with up to three pairs; probabilities in quarters over a uniform grid of four answers, plus answers at both ends.',
  'stateless exploration of all answers of the random generator on the implementation; outcomes weighed against the product distribution')
