"""Which harness decides which property."""
PROPS = {}


def E(name, covers=(), **k):
    return dict(name=name, covers=list(covers), **k)


def P(pid, harness, entries, bounds, outside='', srcs=(), assumptions=(), **k):
    PROPS[pid] = dict(harness=harness, entries=entries, bounds=bounds if isinstance(bounds, dict) else {'quick': bounds}, outside=outside, srcs=list(srcs), assumptions=list(assumptions), **k)


P('C01', 'input.cpp', [
    E('h_gate_one_port', ['forwarded', 'dropped']), E('h_gate_two_ports', ['forwarded', 'dropped']), E('h_gate_three_ports', ['forwarded', 'dropped']),
    E('h_gate_many_ports', ['forwarded']), E('h_gate_batch', ['forwarded']), E('h_gate_long', ['dropped']), E('h_output_passes', ['forwarded']), E('h_gate_ieee', ['out'])],
    {'quick': '7 messages on one port, 5 on two, 4 on three, 2 on twelve ports; all 64-bit timestamps; 60-message stream with one arbitrary message',
     'thorough': '9 messages on one port, 6 on two, 5 on three; 200-message stream'})
P('C02', 'join.cpp', [
    E('h_join2', ['released', 'held']), E('h_join3', ['released', 'held']), E('h_join3_queues', ['released', 'held']), E('h_join3_queues_mid', ['released']), E('h_join3_queues_last', ['released']),
    E('h_join2_queues', ['released']), E('h_join2_queues_rev', ['released']), E('h_join4_queues', ['released']), E('h_join3_grid', ['released']), E('h_join2_grid', ['released']), E('h_join12', ['released', 'held']), E('h_join_lag', ['released', 'held']), E('h_join_ieee', ['ok'])],
    {'quick': 'every interleaving of 6 messages on 2 ports and 5 on 3 ports with arbitrary 64-bit strictly increasing timestamps per port; fixed arrival shapes of 7-8 messages with every timestamp relation; every subset of a 4-slot (2 ports: 5-slot) time grid per port; 12 ports; a 70-message lag',
     'thorough': '7 messages on 2 ports, 6 on 3, shapes to 9, 5/6-slot grids, 200-message lag'},
    'more ports with longer free histories; equal or decreasing timestamps on one port (excluded by the Input gate)')
P('C04', 'demux.cpp', [
    E('h_demux1', ['routed', 'suppressed']), E('h_demux2', ['routed', 'suppressed']), E('h_demux3', ['routed', 'suppressed']), E('h_demux2_deep', ['routed', 'suppressed']), E('h_demux_extra_controls', ['routed', 'suppressed']),
    E('h_demux12', ['routed', 'suppressed']), E('h_demux_lag', ['routed']), E('h_demux_bad_instruction', ['reported']), E('h_demux_ieee', ['routed'])],
    {'quick': 'every interleaving and every 0/1 instruction of 4 messages on 1 port, 2 on 2 ports, 1 on 3 ports; 3 messages on 2 ports with a fixed instruction pattern; surplus control messages; 12 ports; 70-message lag; arbitrary instruction values',
     'thorough': '5 messages on 1 port, 2 on 3 ports, 150-message lag'})
P('C09', 'filters.cpp', [E(f'h_{k}{s}', ['pass'] + (['drop'] if s != '_long' else [])) for k in ('greater', 'less', 'equal') for s in ('', '_ieee', '_long')],
    {'quick': '5 messages with arbitrary real values and threshold, 3 messages over all IEEE-754 doubles, 300-message stream', 'thorough': '8 / 5 / 1000 messages'})
P('C05', 'graph.cpp', [E('h_' + n, ['delivered'] + x) for n, x in (('fanout', []), ('fanout_stateful', []), ('diamond', []), ('branches', ['dropped']), ('same_source', []), ('data_and_control', []), ('ports_separate', []), ('burst', []), ('burst_any', []), ('burst_long', []), ('edge_kinds', []), ('chain', []))],
    {'quick': 'fan-out to 12 children; every order of the 2-5 edges of the listed graphs; 2-4 messages with arbitrary times and values; bursts of up to 5, also of 700, also with arbitrary times; every set of edges from one output to two data and two control ports of one operator; a 40-stage chain', 'thorough': '60-stage chain'},
    'arbitrary graph shapes: the listed families (fan-out, diamonds, parallel edges, data plus control, multi-port, bursts, chains) stand for them')
P('C06', 'wiring.cpp', [E('h_connect', ['connected', 'refused']), E('h_connect_ref', ['connected']), E('h_unknown_port', ['refused', 'accepted']), E('h_constructors', ['done']), E('h_ports', ['done', 'refused'])],
    '6 operator kinds as parent and child, 11 port names each side; 4 port additions; every 64-bit interval')
P('C07', 'restore.cpp', [E('h_' + n, ['continued']) for n in 'input_any variable_any demux_any join_any plus_any input output join join3 demux greater less equal add scale constant power identity timeshift difference count cumsum ma ma5 fir ar sd peak constres cosine hermite function function_hermite variable plus minus mult div and or gts lts linear rsi long_count long_cumsum long_ma long_fir long_constres long_cosine long_hermite long_input long_join long_plus long_variable long_demux long_queries composite difference_newest join12 twice'.split()],
    {'quick': 'cut after any of 0..n messages, n = 3-9 per operator type with arbitrary values and arbitrary non-decreasing times (windowed types) or every small-gap timing/interleaving; 4 messages with times in any order for the gating, joining and query types; 40-80-message runs cut at 8 places', 'thorough': 'longer histories (to 14 messages; runs of 80-300)'},
    'operator parameters other than the listed ones; restoring into an operator that has already processed messages')
P('C08', 'composite.cpp', [E('h_' + n, ['connected' if n == 'misuse' else 'emitted']) for n in 'add ar constant cosine count cumsum diff diff_newest equal greater less hermite identity ma fir peak sd power scale shift shift_default shift_dt shift_back shift_far peak4 peak1 ma1 ma4 sd2 fir1 ar1 power3 cosine5 hermite3 wide defaults join join3 division minus linear demux variable graph misuse'.split()],
    {'quick': 'every create method, also with arguments left out and twelve ports, 2-6 messages with arbitrary values and small-gap timings; a two-output graph of five stages with arbitrary times', 'thorough': 'up to 6 messages'},
    'composite graphs other than the listed ones; operator parameters other than the listed ones')

PT = 'add scale constant identity'.split()
P('S01', 'pointwise.cpp', [E(f'h_{k}{s}', ['out']) for k in PT for s in ('', '_ieee', '_int', '_long')] + [E('h_power', ['out']), E('h_power_int', ['out']), E('h_power_values', ['out'])],
    {'quick': '6 messages with arbitrary values, times and constant; all IEEE doubles for 2 messages (not Power); 10-12 special constants; 300-message stream', 'thorough': '12 messages; 1500-message stream'},
    'Power is compared with std::pow: arguments are real, and pow beyond integer exponents is an uninterpreted function of both arguments')
P('S02', 'timeops.cpp', [E('h_shift_p1', ['moved']), E('h_shift_p3', ['moved']), E('h_shift_zero', ['moved'])] + [E('h_shift_' + n, ['moved', 'clamped']) for n in 'm1 m7 neg neg2 times long'.split()] + [E('h_shift_negneg', ['moved']), E('h_shift_defaults', ['moved'])],
    {'quick': 'every dt of magnitude up to 2^40 of either sign with times 1, 3, 0, -1, -7, 2, -2; every times of magnitude up to 100 with 7 dt; every timestamp up to 2^62; 200-message stream', 'thorough': '1000-message stream'})
P('S03', 'timeops.cpp', [E('h_diff' + n, ['out']) for n in ('', '_default', '_other', '_ieee', '_other_ieee')] + [E('h_diff_long'), E('h_diff_other_long')],
    {'quick': '6 messages with arbitrary times and values; all IEEE doubles for 3 messages; 1100-message stream', 'thorough': '12 messages; 4000-message stream'})
P('S04', 'timeops.cpp', [E('h_count', ['out']), E('h_count_long', steps=3000000000), E('h_cumsum', ['out']), E('h_cumsum_long')],
    {'quick': '6-10 messages with arbitrary times and values; 66000/2100-message streams', 'thorough': '30 messages; 150000/6000-message streams'})
P('S05', 'window.cpp', [E('h_ma' + n, ['out']) for n in '1 2 3 7 17 64 300'.split()] + [E('h_ma5_long', ['out'], steps=3000000000), E('h_ma_history', ['out'])],
    {'quick': 'windows 1, 2, 3, 7 with up to 24 arbitrary messages; windows 17, 64 and 300 over 100, 200 and 700 messages; window 5 over 10000 messages', 'thorough': 'windows 1-7 with up to 40 arbitrary messages; 600-, 1500- and 40000-message streams'}, 'rounding within one window')
P('S06', 'window.cpp', [E('h_sd' + n, ['out']) for n in '2 3 5 8_long 32 300 3_long'.split()] + [E('h_sd_values'), E('h_sd_history', ['out'])],
    {'quick': 'windows 2, 3, 5 with up to 10 arbitrary messages; windows 8, 32, 300 and 3 over 50-303 messages; fixed values at offsets to 1e12 in double arithmetic', 'thorough': 'windows 2-5 with up to 16 arbitrary messages; up to 1000 messages'}, 'rounding (square root is exact over the reals)')
P('S07', 'window.cpp', [E('h_fir' + n, ['out']) for n in '1 2 3 6 17 64 300 4_long _ieee'.split()],
    {'quick': '1, 2, 3, 6, 17 arbitrary coefficients with up to 40 messages, 64 and 300 fixed coefficients with 140 and 320 messages, 1100-message stream', 'thorough': 'up to 30 arbitrary messages for 6 coefficients; 3000-message stream'}, 'rounding')
P('S08', 'window.cpp', [E('h_ar' + n, ['out']) for n in '1 2 3 4 8 300 2_long _ieee'.split()],
    {'quick': '1-3 arbitrary coefficients with 6 arbitrary messages; 4, 8 and 300 fixed coefficients with 14, 30 and 310; 60-message stream', 'thorough': 'up to 9 arbitrary messages; 60- and 100-message streams'}, 'rounding')
P('S09', 'window.cpp', [E('h_peak1', ['out'])] + [E('h_peak' + n, ['out', 'none']) for n in '2 3 4 5 7 8 17 300 3_long _ieee'.split()],
    {'quick': 'windows 1-5 with up to 7 arbitrary messages; windows 7, 8, 17, 300, 3 over 30-310 messages with one arbitrary value at any place; all IEEE doubles but NaN for 4 messages', 'thorough': 'up to 8 arbitrary messages; streams of 60-200'})
P('F01', 'window.cpp', [E('h_rsi' + n, ['out']) for n in '1 2 3 4 5_long 14_long 300'.split()] + [E('h_rsi_flat', ['noloss'])],
    {'quick': 'periods 1-4 with up to 6 arbitrary messages; periods 5, 14 and 300 over 20-306 messages with one arbitrary value at any place; constant and rising streams', 'thorough': 'up to 8 arbitrary messages; 40-50-message streams'}, 'rounding')
P('S10', 'resample.cpp', [E('h_const_' + n, ['between', 'ongrid', 'none']) for n in 'dt3 free long'.split()] + [E('h_const_dt1', ['between', 'ongrid']), E('h_const_gap', ['between']), E('h_const_huge', ['ongrid'], steps=3000000000), E('h_const_ieee', ['between']), E('h_const_big', ['none'])],
    {'quick': 'intervals 1 and 3 with every gap pattern of 4-5 messages; arbitrary interval and gaps (to 3 grid points each) for 4 messages, arbitrary base time; 150-message streams', 'thorough': '5-6 messages; 600-message stream'})
P('S11', 'resample.cpp', [E('h_cos_' + n, ['between', 'ongrid', 'none']) for n in 'dt3 long sparse'.split()] + [E('h_cos_dt1', ['between', 'ongrid']), E('h_cos_gap', ['between']), E('h_cos_huge', ['ongrid'], steps=3000000000), E('h_cos_times', ['emitted']), E('h_cos_value', ['out'])],
    {'quick': 'intervals 1 and 3 with every gap pattern of 4-5 messages and arbitrary values; arbitrary interval, gaps and base time for 4 messages; 100-message streams', 'thorough': '5-6 messages; 400-message streams'}, 'cosine at symbolic arguments is an uninterpreted function; rounding')
P('S12', 'resample.cpp', [E('h_her_' + n, ['between', 'ongrid', 'none']) for n in 'dt3 long sparse'.split()] + [E('h_her_dt1', ['between', 'ongrid']), E('h_her_gap', ['between']), E('h_her_huge', ['ongrid'], steps=3000000000), E('h_her_times', ['emitted']), E('h_her_times0', ['emitted']), E('h_her_value', ['between']), E('h_her_first_gaps', ['between', 'none'])],
    {'quick': 'intervals 1 and 3 with every gap pattern of 5-6 messages and arbitrary values; arbitrary interval, gaps and base time for 5 messages (timestamps); 80-message streams', 'thorough': '6-7 messages; 300-message streams'}, 'rounding')
P('S13', 'function.cpp', [E('h_' + n, ['out']) for n in 'linear2 linear3 linear4 linear5 hermite2 hermite3 hermite4 hermite5 through_linear through_hermite line smooth default_linear any2 any3 bad many'.split()],
    {'quick': '2-5 points at fixed uneven places, any order, values in [-100,100], argument in [-50,50]; 2-3 points at arbitrary places for linear; 24 points; all arguments within 1e-6', 'thorough': 'more arguments per function'}, 'rounding; two points with the same place')
P('S14', 'variable.cpp', [E('h_all', ['answered', 'waits', 'default']), E('h_backlog', ['answered', 'default']), E('h_early', ['answered', 'waits', 'default']), E('h_mixed', ['answered', 'waits', 'default']), E('h_default0', ['default']),
    E('h_grid', ['answered', 'waits', 'default']), E('h_grid_query_first', ['answered', 'waits', 'default']), E('h_long', ['answered', 'default']), E('h_behind', ['answered']), E('h_ieee', ['answered'])],
    {'quick': 'every interleaving of 6 data and query messages with every relation between their times; fixed shapes of 8-9 messages; every subset of a 6-slot time grid; 120-240-message streams', 'thorough': '7 messages, shapes of 9-11, 7-slot grid, 400-800-message streams'}, 'queries older than an already answered one')
P('S15', 'binary.cpp', [E(f'h_{k}{s}', ['out']) for k in ('plus', 'minus', 'mult', 'div') for s in ('', '_lag', '_ieee')],
    {'quick': 'every interleaving of 5 messages with arbitrary 64-bit times; 60-message lag; all IEEE doubles for 4 messages', 'thorough': '6 messages; 150-message lag'})
P('S16', 'binary.cpp', [E(f'h_{k}{s}', ['out']) for k in ('and', 'or', 'gts', 'lts') for s in ('', '_lag', '_ieee')],
    {'quick': 'every interleaving of 5 messages with arbitrary 64-bit times; 60-message lag; all IEEE doubles but NaN for 4 messages', 'thorough': '6 messages; 150-message lag'})
P('S17', 'binary.cpp', [E('h_linear' + n, ['out']) for n in '2 3 9 11 12 13 _lag _ports'.split()],
    {'quick': 'every interleaving of 5 messages on 2 and 3 ports with arbitrary coefficients and 64-bit times; 9, 11, 12 and 13 ports with arbitrary coefficients and values; 50-message lag', 'thorough': '6 messages; 120-message lag'})
P('S18', 'streams.cpp', [E('h_' + n, ['out']) for n in 'input output join join3 demux greater less equal add scale constant power identity timeshift timeshift_back difference difference_newest count cumsum ma fir ar sd peak peak4 constres cosine hermite function function_hermite variable plus minus mult div and or gts lts linear rsi composite'.split()],
    {'quick': '3-7 messages per operator type with arbitrary values and every small-gap timing and interleaving; a second instance fed another stream in between', 'thorough': 'one message more for the stateful types'}, 'operator parameters other than the listed ones')

# ------------------------------------------------------------------ API
API = ['libs/api/src/FactoryOp.cpp', 'libs/api/src/Pipeline.cpp', 'libs/api/src/Program.cpp']
VALS = [k + s for k in 'greater less equal add scale constant power'.split() for s in ('', '_int')]
OPS = 'input output join demux ma sd peak rsi fir ar linear identity count cumsum difference plus minus mult div and or gts lts difference_flag variable shift constres cosine hermite function function_hermite'.split() + VALS
P('A01', 'api_ops.cpp', [E('h_read_' + n, ['out'] if not n.endswith('_int') or n[:-4] not in ('greater', 'less', 'equal') else []) for n in OPS + 'input_default output_default demux_default variable_default shift_negative shift_defaults shift_default_dt function_default'.split()] + [E('h_windows', ['out']), E('h_ports', ['out'])],
    {'quick': 'every operator type of the program format; parameters arbitrary doubles, integers to 2^50 (window sizes too), 1-40 and 300 ports; 2-5 messages with arbitrary values (windowed types: one arbitrary value in a fixed stream)'}, 'parameters that are JSON integers in place of fractions are covered for the value types only; digits of printed numbers (a number printed and read back is taken to be the same number)', srcs=API)
P('A02', 'api_ops.cpp', [E('h_write_' + n, ['out'] if not n.endswith('_int') or n[:-4] not in ('greater', 'less', 'equal') else []) for n in OPS] + [E('h_windows', ['out']), E('h_ports', ['out'])], {'quick': 'every operator type of the program format with the parameters of A01; 1-5 messages with arbitrary values'}, 'digits of printed numbers (a number printed and read back is taken to be the same number)', srcs=API)
P('A03', 'api_prog.cpp', [E('h_filter', ['reported', 'hidden'])] + [E('h_' + n, ['reported']) for n in 'lists batch batch_any everything accessors'.split()], {'quick': 'every selection of six operator/port pairs of one program (two of them not existing), every list of up to three of four ports of one operator (repeated, silent or not existing); batches of 4 messages on one and two ports, also with repeated and decreasing times, in both modes; a join program in debug mode and without selection; arbitrary values'}, 'other program shapes', srcs=API)
P('A04', 'api_prog.cpp', [E('h_restore' + n, ['continued']) for n in '0 1 2 3 4 5 _pipeline _pipelines _factory _sizes _wide'.split()], {'quick': '8 programs (windows, joins, resamplers, demultiplexer, finance, two ports with a variable, one and nested pipelines), with and without output selection, cut at every place of 4-5 messages with arbitrary values, the first message after the cut also late or repeated; a second restore through the factory; ids of 300 characters, with quotes, line ends, NUL and UTF-8, a definition of 70000 bytes, 60 operators, a 300-message buffer; joins and a demultiplexer waiting on any of five ports'}, 'other program shapes and longer histories per program (C07 has longer ones per operator)', srcs=API)
P('A05', 'api_pipe.cpp', [E('h_pipe_' + n, ['out']) for n in 'single ids chain two_outputs two_inputs shared_source lag demux burst_out burst_in many_outputs twice nested entry pairs graphs0 graphs1'.split()], {'quick': '17 families: ids containing colons, chains, two inputs or outputs, shared sources, lag, demultiplexer, bursts in and out, four ports, two pipelines with the same inner names, three nesting levels, a pipeline as entry, all 169 chains of two of 13 operator kinds, all arrangements of three operators (each port open or connected to any earlier output, port names given or left out); 3-6 messages with arbitrary values and every small-gap timing'}, 'pipelines with ten or more ports (their numbering is alphabetical); downstream operators that depend on the order in which messages of different ports arrive', srcs=API)
P('A06', 'api_multi.cpp', [E(f'h_side{i}', ['served', 'absent']) for i in range(10)] + [E('h_same_definition', ['served'])], {'quick': 'three steps of ten kinds (send on two ports, debug, create, delete, move by serialization, re-create an existing id) in every order over three ids that are prefixes of one another, ids never created,, with closing queries and messages; the same definition (8 programs) under three ids with every assignment of 5 messages'}, 'longer management histories', srcs=API)
P('A07', 'api_multi.cpp', [E(f'h_buffer{i}', ['reported']) for i in range(9)] + [E('h_buffer_' + n, ['reported']) for n in 'many any one entry long port'.split()], {'quick': 'four steps of nine kinds (add on two ports of one program, add to another, add a message for an unknown port, process in either mode, delete, re-create) in every order; 6 messages with increasing times on either port; 4 messages in any order of time; six entry operators that take repeated times, 6 messages; 300 messages in one go; ports the program does not have, the empty name included'}, 'longer buffer histories', srcs=API)
P('A08', 'api_prog.cpp', [E('h_reject', ['rejected', 'accepted']), E('h_reject_text', ['rejected'])], {'quick': '29 kinds of defect planted in one valid program, in its connections, operators and their parameters, entry and inside a pipeline; eight malformed texts'}, 'schema validation of the bindings (needs a library that is not installed)', srcs=API)
P('A09', 'api_prog.cpp', [E('h_bytes_' + n, ['compared']) for n in 'each programs values'.split()], {'quick': '24 operator kinds and 8 programs after 0-3 messages; three messages with arbitrary values; any content of memory never written; two ways of laying out the heap'}, 'histories beyond three messages', srcs=API)
P('A11', 'api_text.cpp', [E('h_text_' + n, ['reported']) for n in 'messages buffer batch bad_batch manage'.split()], {'quick': '3-6 messages on two ports with arbitrary values and times (the whole 64-bit range) through every call; every combination of batch vector lengths 0-2'}, 'the validator library (not installed; replaced by harness/stub/nlohmann/json-schema.hpp, which implements the keywords the schemas use)', srcs=API + ['libs/api/src/bindings.cpp'])
P('W01', 'python/helper.py', [], {'quick': 'every combination of given and absent fields of a program; connections between every pair of four names; runs of up to three rows on one port and two rows on two ports with arbitrary times and numbers and every pattern of replies (none, one, three messages); three rows answered with up to 41 messages, 40 rows on two ports; two rows on twelve ports; a refused program'}, 'longer data; the drawing of a program (toMermaidJs); the generated operator classes; pybind11 and the library itself (A12)', python=True, n=12, technique='symbolic execution of the Python source with crosshair and z3, all paths exhausted', trusts='Trusts crosshair, z3 and the stand-ins for the compiled module and json; violations are reported only after replay under plain Python with the real json.',
  assumptions=['the compiled module is replaced by a program that reports what it was sent, json by a stand-in that passes structures (a replay uses the real json)', 'crosshair and z3 are trusted; a violation is reported only after plain Python reproduces it'])
TXT = API + ['libs/api/src/bindings.cpp']
P('A12', 'api_py.cpp', [E('h_bind_' + n, ['reported']) for n in 'buffer manage validate'.split()], {'quick': '3 messages with arbitrary values and 64-bit times on two ports in both modes; every exposed function by name, two programs'}, 'pybind11 itself (not installed; replaced by harness/stub/pybind11, which records what is exposed and converts arguments by type)', srcs=TXT)
P('A13', 'api_wasm.cpp', [E('h_bind_' + n, ['reported']) for n in 'buffer manage validate batch message exact'.split()], {'quick': '3 messages with arbitrary values and times to 2^53 (batches: every 32-bit time, in any order) on two ports in both modes; every exposed function by name, two programs'}, 'embind itself (not installed; replaced by harness/stub/emscripten, whose whole numbers have the 32 bits of wasm32)', srcs=TXT)
P('A14', 'api_schema.cpp', [E(f'h_schema_{i}', ['built', 'default'] if i != 2 else ['built']) for i in range(4)] + [E('h_schema_refused', ['refused']), E('h_schema_programs', ['ran'])], {'quick': 'every published operator schema, every choice of absent optional parameters, numbers arbitrary, integers over the documented range (within 32 bits where it is open), up to one element more than the least list, port counts to two above the least; each parameter missing, of another type or out of range in turn; five programs'}, 'the validator library and the node generator (not installed; replaced by harness/stub/nlohmann/json-schema.hpp and schema.py)', srcs=TXT)
TST = dict(typescript=True, technique='symbolic execution of the instrumented TypeScript source with z3, all paths exhausted', trusts='Numbers are reals. Trusts the TypeScript compiler, z3, harness/ts and the stand-ins for uninstalled packages; violations are reported only after replay on the plainly transpiled sources.',
  assumptions=['class-transformer, nanoid, zod schemas, the WebAssembly module, zustand, immer, papaparse and commander are replaced by small stand-ins', 'a violation is reported only after the untransformed code reproduces it'])
P('W02', 'ts/helper.js', [E(n, c) for n, c in (('connections', ['refused', 'deleted', 'kept']), ('default_ports', ['default']), ('delete_operator', ['deleted']), ('any_names', ['deleted', 'disconnected', 'same']), ('same_ports', ['added', 'refused']), ('described', ['described']), ('run_collapsed', ['ran']), ('run_collapsed_two', ['ran']),
  ('run_extended', ['ran']), ('run_extended_two', ['ran']), ('run_long', ['ran']), ('refused', ['refused']), ('invalid', ['valid', 'invalid']), ('started', ['answered']), ('restarted', ['answered']), ('run_wide', ['ran']), ('batch', ['answered']), ('overlapping', ['answered']))] + [E('connections_three', ['refused', 'deleted', 'kept'], thorough=True)],
  {'quick': 'two connections between any of four names and three ports each, then any one deleted; any of four operators deleted among three connections; four operators and two connections of any names of up to 20 characters, any one operator or connection deleted; every set of fields; runs of three rows on one and two rows on two ports with arbitrary times and values and four patterns of replies, one of 45 rows; three messages to two started programs in every mode, one after the other and overlapping; a program stopped or not, changed and started again; twelve ports', 'thorough': 'three connections'},
  'rows with fewer values than the program has ports; the generated operator classes and zod schemas (their generator packages are not installed)', **TST)
P('W03', 'python/operators.py', [], {'quick': 'all published operators, arbitrary numbers, arrays of two, optional parameters all given or all absent, by name or by position, accepted or refused by the library'}, 'the TypeScript operator classes (json-schema-to-zod is not installed); markdown output', python=True, n=8,
  technique='symbolic execution of the generated Python source with crosshair and z3, all paths exhausted', trusts='Trusts crosshair, z3 and the stand-ins for the compiled module, json and the yaml package; violations are reported only after replay under plain Python.',
  assumptions=['the repository generator is run by node on the current operator pages, with js-yaml for yaml', 'the compiled module is replaced by one that accepts or refuses; crosshair and z3 are trusted'])
P('W04', 'ts/cli.js', [E(n, [c]) for n, c in (('rows', 'ran'), ('scaled', 'ran'), ('short', 'ran'), ('long', 'ran'), ('screen', 'shown'), ('screen_long', 'shown'), ('screen_ids', 'shown'))] + [E('screen_more', ['shown'], thorough=True)],
  {'quick': 'two rows whose cells are arbitrary numbers or other text, arbitrary scale factors, every combination of output, verbose and interactive; 45 rows; the table after every three steps from either end over two results of any shape and over 14 results', 'thorough': 'three results'},
  'reading of CSV text (papaparse) and numbers from text; drawing (blessed)', **TST)
