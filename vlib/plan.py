"""How many cases each check runs, and what its monitors must have seen."""


ONLINE = 'runtime monitoring: online trace-specification checker over hooked executions'
TWINS = 'runtime monitoring: twin executions from the same random state compared event by event'
MODEL = 'runtime monitoring: generated calls judged by an independent reference model'
STAT = 'runtime monitoring: statistical monitor with bounded false alarm probability'
SAN = 'AddressSanitizer and UndefinedBehaviorSanitizer over hostile workloads'
NOTE = ('holds on the executions observed (counts in the evidence file); trusts the Python '
        'monitor and its reading of the documentation')


def P(quick, thorough, rule, require, flavours=None, assume=(), technique=ONLINE, note=NOTE):
    return {'flavours': flavours or {'plain': {'quick': quick, 'thorough': thorough}},
            # well below what an ordinary run reaches, so that no seed comes near it
            'rule': rule, 'require': {k: max(1, int(0.6 * x)) for k, x in require.items()},
            'assume': list(assume),
            'technique': technique, 'note': note}


PLAN = {}
HIST = ('histories of single queues of every class with generated parameters, arrival and '
        'service functions and operations (simulate, activate, deactivate, change servers, '
        'delay, retrieve, toggle and clear data); non-trivial: at least 10 events, distinct '
        'by class and event trace')
PLAN['C01'] = P(9000, 150000, HIST, {'events': 200000, 'arrivals': 80000, 'departures': 80000, 'op_buffer': 1000,
                                     'losses': 8000, 'op_servers': 1500})
PLAN['C02'] = P(9000, 150000, HIST, {'events': 200000, 'services': 80000, 'op_servers': 3000})
PLAN['C03'] = P(9000, 150000, HIST, {'services': 80000, 'departures': 80000, 'op_delay': 4000})
PLAN['C04'] = P(9000, 150000, HIST, {'arrival_f_calls': 80000, 'stopping_time_reached': 1000,
                                     'op_set_active': 5000, 'op_set_inactive': 2000,
                                     'deactivated_own': 1000, 'stopping_time_moved': 50})
PLAN['C05'] = P(9000, 150000, HIST, {'losses': 10000, 'arrivals': 60000})
PLAN['C07'] = P(7000, 100000, HIST, {'rows_checked': 200000, 'data_checks': 10000,
                                      'visits_again': 2000, 'losses_again': 200})
PLAN['C09'] = P(9000, 150000, HIST, {'op_servers': 20000, 'op_servers_by_agent': 2000, 'op_servers_started': 3000,
                                     'op_servers_below_busy': 3000, 'op_servers_bad': 3000})
NET = ('histories of networks on generated graphs (2-7 vertices, all queue and agent classes, '
       'terminal edges, loops, both blocking modes, agent limits, random tables), one event at '
       'a time; non-trivial: at least 10 events, distinct by graph size and event trace')
PLAN['C10'] = P(4000, 60000, NET + '; a third of the cases compare simulate(n) and simulate(t) '
                'with single steps on a network built alike',
                {'events': 150000, 'contract_calls': 2000, 'contract_n': 800, 'contract_t': 800,
                 'contract_events': 15000, 'contract_exhausted': 50, 'exhausted': 200, 'revived': 300,
                 'contract_revived': 150})
PLAN['C06'] = P(6000, 100000, HIST + '; two thirds of the cases compare simulate with a goal '
                'against single steps up to it on a queue built alike',
                {'events': 50000, 'contract_calls': 10000, 'contract_t': 2000,
                 'contract_nA': 1500, 'contract_nD': 1500, 'contract_n': 3000,
                 'contract_events': 60000, 'agents_sent': 3000})
PLAN['C11'] = P(4000, 60000, NET, {'events': 200000, 'losses': 15000, 'exits': 10000, 'hops': 150000,
                                   'loop_probes': 1})
PLAN['C12'] = P(4400, 60000, NET, {'links': 80000, 'events': 200000, 'hops': 150000, 'path_links': 150000,
                                   'exits': 10000})
PLAN['C14'] = P(4000, 60000, NET, {'events': 200000, 'greedy_real_choices': 100000,
                                   'greedy_not_first': 15000, 'greedy_ties': 50000,
                                   'long_lines': 40})
PLAN['C15'] = P(4000, 60000, NET, {'events': 200000, 'blocked_BAS': 30000, 'blocked_again': 20000,
                                   'moved_after_block': 5000})
PLAN['C16'] = P(4000, 60000, NET, {'events': 200000, 'blocked_RS': 30000, 'blocked_again': 20000,
                                   'moved_after_block': 5000})
PLAN['C17'] = P(4000, 60000, NET, {'events': 200000, 'at_max_agents': 100000,
                                   'deactivated_max': 3000})
PLAN['C31'] = P(2800, 60000, NET, {'events': 100000, 'resources_taken': 5000, 'resources_returned': 4000, 'resources_over_max': 200})
PLAN['C32'] = P(1500, 30000, NET, {'events': 50000, 'info_actions': 50000, 'info_exchanged': 5000,
                                   'info_learned_by_queue': 5000, 'info_kind_0': 10000,
                                   'info_kind_1': 10000, 'info_kind_2': 10000})
PLAN['C08'] = P(9000, 120000, 'a queue is run, then copied or cleared, and compared with the '
                'original or a new one in state and further history; non-trivial: more than 20 '
                'further events, distinct by parameters and end', {
                    'copies': 4000, 'clears': 4000, 'twin_events': 100000,
                    'rerun_events': 100000, 'spoil_clear': 300, 'spoil_attrs': 300,
                    'spoil_data': 300, 'spoil_colors': 300, 'spoil_more': 300},
    technique=TWINS)
PLAN['C13'] = P(600, 12000, 'networks with generated transition tables; thousands of choices per '
                'vertex, in-edge, agent and previous choice, outside and inside simulations; '
                'distinct by network and table', {
                    'draws_judged': 2000000, 'frequency_tests': 20000, 'support_draws': 5000000,
                    'choices_in_simulations': 100000, 'choices_again': 30000, 'single_out_edges': 300,
                    'tests_after': 1000, 'wide_vertices': 10}, technique=STAT,
                assume=('each frequency is accepted within n*KL < 42, a false alarm probability '
                        'below 1e-9 over a run; smaller deviations of probability go unseen '
                        'unless the support changes',))
PLAN['C18'] = P(3000, 50000, NET + '; data is retrieved and collection switched with every kind '
                'of selector', {
                    'queue_data': 3000, 'agent_data': 3000, 'commands': 3000, 'rows': 50000,
                    'agents_at_several_queues': 1000, 'sel_edge_tuple': 100, 'sel_type_set': 100,
                    'sel_int': 100, 'sel_type': 100, 'sel_edge': 100, 'sel_empty': 100})
PLAN['C19'] = P(4000, 60000, 'networks are copied before, during and after a run; copy and '
                'original go through the same generated calls from the same random state, then '
                'one of them is changed in every way; non-trivial: more than 20 further events', {
                    'copies': 1400, 'twin_events': 60000, 'shared_processes': 300, 'copy_new': 100, 'copy_long': 100,
                    'spoil_graph': 80, 'spoil_data': 80, 'spoil_agents': 80, 'spoil_lists': 80,
                    'spoil_table': 80, 'spoil_colors': 80}, technique=TWINS)
PLAN['C20'] = P(3500, 60000, 'networks, queues and graphs built twice from one seed; networks '
                'that were run and cleared against new ones; non-trivial: more than 20 (10 for a '
                'single queue) events, distinct by parameters', {
                    'seeded_networks': 800, 'seeded_queues': 400, 'seeded_generators': 3000,
                    'seeded_events': 50000, 'clears': 1200, 'rerun_events': 50000,
                    'refused': 2000}, technique=TWINS)
PLAN['C21'] = P(9000, 150000, 'generated networks initialized with every kind of selector, wrong '
                'counts, repeatedly and after clear; distinct by network', {
                    'initialized': 6000, 'exact': 2500, 'cut_to_max_agents': 500,
                    'arrivals_scheduled': 15000, 'rejected': 1500, 'refused': 5000,
                    'nothing_to_initialize': 2000, 'share_tests': 500})
PLAN['C22'] = P(9000, 200000, 'networks built from generated graphs in every accepted form, listed '
                'in random order, with generated classes and arguments by type; non-trivial: more '
                'than one edge, distinct by graph', {
                    'networks': 7000, 'queues': 60000, 'arguments': 80000,
                    'terminal_queues': 3000, 'positions': 1000, 'types_in_part': 300,
                    'types_left_out_unadjusted': 300,
                    'changes_refused': 20000, 'servers_by_vertex': 500, 'rejected': 5000,
                    'form_dict': 500, 'form_matrix': 500, 'form_undirected': 500}, technique=MODEL)
PLAN['C23'] = P(16000, 400000, 'generated adjacency lists, dictionaries and matrices with '
                'properties and types; non-trivial: has edges, distinct by result', {
                    'conversions': 10000, 'with_terminals': 4000, 'round_trips': 4000,
                    'wrapped': 2000, 'rejected': 10000}, technique=MODEL)
PLAN['C24'] = P(6000, 120000, 'graphs generated with 1-40 vertices, some with 260-380, by each generator, seeded or '
                'not; distinct by size, kind and seed', {
                    'graphs': 6000, 'pairs': 200000, 'more_than_a_tree': 2000, 'loop_rates': 800,
                    'rank_graphs': 800, 'compared_with_minimal': 1000,
                    'large_graphs': 4}, technique=MODEL)
PLAN['C25'] = P(8000, 200000, 'generated graphs typed at random and by rank with generated '
                'proportions and ranks', {
                    'edges_typed': 300000, 'share_tests': 8000, 'rejected': 6000,
                    'rank_graphs': 3500, 'top_vertices': 5000, 'near_vertices': 1000,
                    'ordinary_loops': 1000}, technique=MODEL)
PLAN['C26'] = P(10000, 250000, 'generated networks; valid and invalid matrices and dictionaries '
                'set one after the other, read back in both forms', {
                    'tables_read': 20000, 'set_dict': 8000, 'set_matrix': 4000,
                    'rejected': 8000, 'generated': 1500, 'returned_table_changed': 5000},
                technique=MODEL)
PLAN['C27'] = P(10000, 250000, 'generated sequences of unions and questions on 1-200 elements; '
                'distinct by sequence', {
                    'unions': 100000, 'finds': 200000, 'deep_finds': 80000, 'unions_within_a_set': 30000},
                technique=MODEL)
PLAN['C28'] = P(12000, 400000, 'generated sequences of push and pop on schedulers of 1-40 keys, from '
                'nothing, from given entries, as simulations use them and hostile; non-trivial: at '
                'least 10 operations, distinct by sequence', {
                    'pushes': 200000, 'popped_pending': 100000, 'overtaken_entries': 50000,
                    'growths': 10000, 'drained': 10000, 'popped_nothing': 5000,
                    'rejected': 2000}, technique=MODEL)
PLAN['C29'] = P(0, 0, 'hostile and ordinary calls of the scheduler, routing choices with every kind of '
                'table, and complete simulations, in a build with AddressSanitizer and '
                'UndefinedBehaviorSanitizer and in a build with bounds checks; distinct by calls', {
                    'native_calls': 100000, 'events': 60000, 'tables': 500, 'pushes': 10000,
                    'large_networks': 6},
                flavours={'san': {'quick': 3600, 'thorough': 90000},
                          'bounds': {'quick': 2400, 'thorough': 60000}},
                technique=SAN, assume=(
                    'memory errors are seen when the access leaves a live allocation (san) or the '
                    "length of the array (bounds); undefined arithmetic when UBSan's checks see "
                    'it on the executed values',))
PLAN['C30'] = P(800, 12000, 'rate functions (constant, sine, steps, gaps of rate zero, tents, saws, '
                'ramps) on time scales 0.05-50; chains of points, repeated starts, random starts '
                'and whole queues; distinct by rate and use', {
                    'times_judged': 5000000, 'distribution_tests': 3000,
                    'independence_tests': 700, 'times_with_zero_rates': 1000000, 'silences': 400,
                    'arrivals_of_queues': 300000, 'mode_chain': 100, 'mode_same': 100,
                    'mode_jump': 100}, technique=STAT,
                assume=('each test has a false alarm probability below 1e-13; deviations of the '
                        'distribution below about 0.015 (per case) go unseen',))
PLAN['C33'] = P(1200, 25000, 'networks and queues run twice from one random state, one of them '
                'watched between any two steps in every way; animations against single steps; '
                'non-trivial: more than 20 events, distinct by network and length', {
                    'watches': 10000, 'watched_events': 50000, 'watched_queue_events': 10000,
                    'animations': 200, 'animated_events': 1000, 'watch_draw': 100,
                    'watch_active': 100, 'watch_type': 100, 'watch_queue_data': 100,
                    'watch_agent_data': 100, 'watch_table': 100, 'watch_copy': 100,
                    'data_compared': 500}, technique=TWINS)
PLAN['C34'] = P(3000, 30000, 'pictures and animations of generated networks in every state, with own '
                'colors, positions and drawing arguments, read back from the figures; and drawings '
                'of graphs; distinct by network', {
                    'pictures': 4000, 'elements_drawn': 50000, 'frames': 4000,
                    'frames_with_events': 2000, 'shown_draw': 300, 'shown_active': 100,
                    'shown_type': 100, 'shown_nofile': 100, 'arguments': 3000,
                    'files_measured': 100, 'states_compared': 1000, 'graphs_drawn': 100,
                    'new_networks_drawn': 200, 'drawn_as_kept': 200},
                technique=MODEL)
PLAN['C35'] = P(1500, 25000, 'networks and queues run twice from one random state, one of them asked '
                'between any two steps for things that must be refused; non-trivial: more than 20 '
                'events, distinct by network and length', {
                    'refused': 20000, 'compared_events': 80000, 'compared_queue_events': 8000,
                    'states_compared': 3000, 'refused_rows': 1000, 'refused_row': 1000,
                    'refused_matrix': 2000, 'refused_nActive': 2000, 'refused_none': 1000,
                    'refused_servers': 5000, 'refused_simulate': 100, 'refused_animate': 50,
                    'refused_blocking': 1000, 'refused_table_type': 1000,
                    'refused_proportions': 500, 'cleared': 150}, technique=TWINS)
PLAN['C36'] = P(4000, 60000, 'histories of graphs built from every kind of input: properties, colors, '
                'positions and edges set, added and read back after every operation; distinct by '
                'graph and operations', {
                    'operations': 15000, 'properties_read': 400000, 'edges_added': 500,
                    'positions_set': 2000, 'lengths_compared': 5000, 'colors_set': 1000,
                    'copies': 1200, 'frozen_kept': 400, 'types_asked': 50000,
                    'graphs_verified': 20000}, technique=MODEL)
PLAN['C37'] = P(2400, 36000, 'queues, networks and generated graphs made twice from one random state, '
                'once with parameters left out and once with the documented defaults given, then '
                'simulated alike; distinct by class, parameters given and length',
                {
                    'compared_states': 10000, 'crowded_networks': 8, 'graphs_compared': 200,
                    'networks': 400, 'queues': 200, 'network_events': 60000,
                    'queue_events': 20000}, technique=TWINS)
PLAN['C38'] = P(3000, 50000, 'histories of networks in which every queue records from the start; the '
                'records alone are read back and put together; non-trivial: more than 20 events, '
                'distinct by network and length', {
                    'links': 400000, 'journeys': 150000, 'journeys_ended': 30000,
                    'visits': 600000, 'whereabouts': 40000, 'copies': 600,
                    'events': 300000},
                technique='runtime monitoring: offline checker over recorded event logs')
PLAN['C39'] = P(2000, 30000, 'networks and queues run twice from one random state, alone and among '
                'others that are built, run, changed and cleared between any two steps, and made from '
                'arguments that others were made from; non-trivial: more than 20 events, distinct by '
                'network', {
                    'interference': 12000, 'compared_events': 80000,
                    'compared_queue_events': 15000, 'relatives_compared': 1500,
                    'relatives_events': 10000, 'new_queues': 500, 'other_networks': 800,
                    'states_recorded': 4000}, technique=TWINS)
PLAN['C40'] = P(900, 12000, 'networks and queues run for hundreds of events with agents known by weak '
                'references, then cleared, copied or dropped; memory traced over thousands of events; '
                'non-trivial: several times more agents gone than may be held, distinct by network',
                {'counts': 2500, 'agents_gone': 30000, 'queue_agents_gone': 15000,
                 'memory_runs': 60, 'memory_events': 90000, 'end_clear': 50, 'end_clearqueues': 50,
                 'end_drop': 50, 'end_copy': 50, 'end_again': 50, 'queues_cleared': 50,
                 'with_data': 50, 'copies': 100}, technique=ONLINE)
PLAN['C41'] = P(1500, 20000, 'histories of queues and networks whose agents write down every call they '
                'get, compared with the records of the queues; non-trivial: more than 20 events, '
                'distinct by network and length', {
                    'stories': 60000, 'calls_matched': 300000, 'asked': 90000,
                    'asked_again': 4000, 'losses': 9000, 'counted_inside': 180000,
                    'balances': 800, 'events': 100000, 'queue_events': 40000},
                technique='runtime monitoring: offline checker over recorded event logs')
PLAN['C42'] = P(500, 8000, 'queues and networks with exponential times, or Poisson arrivals of changing '
                'rate, run event by event; non-trivial: more than 1000 events, distinct by network',
                {'events': 3000000, 'queue_events': 1500000, 'rate_tests': 8000,
                 'uniform_tests': 300, 'default_networks': 20, 'choices_seen': 1000000,
                 'choices_again': 100000}, technique=STAT)
PLAN['C43'] = P(4000, 50000, 'networks run twice in different units of time, from different times, with the '
                'vertices numbered differently; several networks as parts of '
                'one and each alone; queues of a network and queues of their own with the same '
                'arrivals and services; non-trivial: more than 20 events, distinct by network',
                {'units_compared': 9600, 'units_events': 200000, 'units_time_goals': 2900,
                 'parts_compared': 8500, 'parts_events': 280000, 'place_queues': 2500,
                 'place_visits': 95000, 'place_losses': 5800, 'later_compared': 6800,
                 'later_events': 141000, 'later_time_goals': 1890, 'numbers_compared': 8890,
                 'numbers_events': 103800}, technique=TWINS)
