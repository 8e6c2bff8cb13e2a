#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below; a property is claimed when props.py decides it."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/tools']
import props
L = []


def prop(id, title, statement, over, text, why, files, mechanism, state='', na=None):
    assert len(title) <= 80, title
    a = dict(files=files, mechanism=[dict(name=mechanism, where=files[0])])
    if state: a['state'] = [dict(name=state, meaning=state, where=files[0])]
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a, na=na))


C, S, A, F = 'libs/core/include/rtbot/', 'libs/std/include/rtbot/std/', 'libs/api/', 'libs/finance/include/rtbot/finance/'
ONE = 'The unit tests feed one fixed stream; the claim is about every stream, and a wrong answer may need particular values, gaps or a window position the fixed stream never has.'

prop('C01', 'Input ports pass exactly the strictly time-increasing messages',
     'An Input operator forwards a message received on a port, unchanged and on the output port of the same number, exactly when its timestamp is strictly greater than that of the last message forwarded on that port, or when it is the first message on that port; every other message is dropped without any effect. An Output operator forwards every message unchanged on the output of the same number.',
     ['inputs', 'histories'], 'every sequence of messages with arbitrary 64-bit timestamps and values on any number of ports',
     'Tests send a few ascending timestamps; duplicates, regressions after a drop, large values and interleaved ports are not enumerated.',
     [C + 'Input.h', C + 'Output.h', C + 'Operator.h'], 'Input keeps the last forwarded time per port and compares before forwarding', 'last sent timestamp per port')
prop('C02', 'Join releases exactly the messages whose timestamps match on all ports',
     'For any interleaving of per-port strictly increasing streams, a Join emits, once for every timestamp received on all its ports and in increasing time order, the messages with that timestamp, each unchanged on the output of its own port number; it emits nothing else. A matching tuple is emitted as soon as its last message has arrived.',
     ['inputs', 'schedules', 'histories'], 'every interleaving of the ports, every relation between the timestamps, every backlog length, any number of ports',
     'The number of interleavings and timestamp relations is combinatorial; unit tests fix a handful of arrival orders on two to four ports.',
     [C + 'Join.h', C + 'Operator.h'], 'per-port queues with removal of stale front messages until all fronts agree', 'data queues per input port')
prop('C04', 'Demultiplexer routes each data message exactly to the outputs selected for it',
     'For any interleaving of data and control messages, with strictly increasing timestamps on every port and each control message 0 or 1, a Demultiplexer forwards each data message, unchanged and once, to exactly those outputs whose control message with the same timestamp is 1, in data order and once every control port has delivered an instruction for it; a data message for which some control port skipped that timestamp is never forwarded. A control message that is neither 0 nor 1 is reported as an error when it is to be applied, never silently treated as either.',
     ['inputs', 'schedules', 'histories'], 'every interleaving of data and control arrivals, every timestamp relation and instruction value, any number of outputs',
     'Arrival orders, lagging control ports and unmatched control messages multiply; unit tests walk fixed ones.',
     [C + 'Demultiplexer.h', C + 'Operator.h'], 'matching of data front against control fronts with removal of outdated control messages', 'data and control queues')
prop('C05', 'Every emitted message reaches every connected child exactly once and in order',
     'In any operator graph, every message an operator emits on an output port is delivered exactly once to every input (data or control) connected to that port and to no other input, in emission order, and all of a burst of messages is delivered. What a program emits does not depend on the order in which its connections were declared when its synchronising operators (Join, Plus, ...) consume their branches.',
     ['programs', 'inputs', 'schedules'], 'operator graphs with fan-out, diamonds, parallel edges, data and control edges, chains; every declaration order of connections; every stream',
     'Tests use a few graphs in one declaration order with fixed numbers.',
     [C + 'Operator.h', C + 'Output.h', C + 'Join.h'], 'emitOutput/emitParallel walk the children and execute data before control', 'children list and port queues')
prop('C06', 'Wrong wiring is reported or refused and leaves no partial effect',
     'Connecting operators succeeds only when the named output port exists on the parent and the named input port exists on the child; otherwise it is refused and changes no later behaviour. Sending a message to a port that does not exist, and constructing an operator with an unusable window, interval or port count, are reported with an exception and change nothing.',
     ['configurations', 'programs', 'inputs'], 'every pair of operators, every port name, every interval value, any sequence of port additions',
     'Tests name valid ports only and check two constructors.',
     [C + 'Operator.h', C + 'Join.h', C + 'Demultiplexer.h', S + 'ConstantResampler.h', S + 'CosineResampler.h', S + 'HermiteResampler.h'], 'connect() checks ports; receiveData/receiveControl/addDataInput validate names')
prop('C07', 'Collected state restored into a fresh operator continues identically',
     'If the collected state of an operator is restored into a newly built operator with the same parameters, then from that point both emit identical messages (and report identical errors) for every further input, whatever happened before the collection. This holds for every operator type and for composites of operators.',
     ['histories', 'crash_points', 'inputs'], 'every history before the cut, every cut point, every continuation, every operator type',
     'Unit tests cut one fixed stream at one place for some operators; several had no such test at all.',
     [C + 'Operator.h', C + 'Composite.h', C + 'Demultiplexer.h', C + 'Input.h', F + 'RelativeStrengthIndex.h', S + 'AutoRegressive.h', S + 'CumulativeSum.h', S + 'ConstantResampler.h', S + 'HermiteResampler.h', S + 'CosineResampler.h', S + 'Function.h', S + 'Variable.h', S + 'Count.h'], 'collect()/restore() pairs in Operator and in every stateful operator', 'queues plus operator-specific accumulators')
prop('C08', 'A Composite behaves like the same operators wired by hand',
     'A Composite built with its create methods emits, on each of its outputs, exactly the messages that the same operators with the same parameters, connected by hand outside a composite, would emit, for every input stream. Naming an unknown operator in the creation of an internal connection, input or output is reported.',
     ['programs', 'inputs', 'histories'], 'every create method with arbitrary streams, and a graph of five stages with two outputs',
     'One test builds one composite with one stream; a dropped or swapped parameter in any of thirty create methods goes unseen.',
     [C + 'Composite.h', C + 'Operator.h'], 'create* methods build internal operators; execute/receive forward to input and output operators')
prop('C09', 'Threshold filters pass exactly the messages that satisfy the comparison',
     'GreaterThan, LessThan and EqualTo forward a message, unchanged, exactly when its value is strictly greater than, strictly less than, or equal to the configured number; a message that does not satisfy the comparison produces no output. This holds for every double including infinities and NaN (which satisfies none).',
     ['inputs', 'configurations'], 'all IEEE-754 double values and thresholds, all streams up to the bound',
     'Boundary values (equality, neighbours, NaN, infinities, negative thresholds) are a measure-zero set for sampled tests.',
     [S + 'GreaterThan.h', S + 'LessThan.h', S + 'EqualTo.h', S + 'FilterByValue.h'], 'FilterByValue with a predicate')
prop('S01', 'Pointwise operators transform every message on its own',
     'Add, Scale, Power and Constant emit exactly one message per received message, with the same timestamp and value v+c, v*c, v to the power c, and c; Identity emits the message unchanged. The result depends on nothing but that message and the configured number.',
     ['inputs', 'histories', 'configurations'], 'every stream of doubles (all IEEE-754 values for Add, Scale, Constant, Identity) and every constant', ONE,
     [S + 'Add.h', S + 'Scale.h', S + 'Power.h', S + 'Constant.h', S + 'Identity.h'], 'each processes the one-element window of its port')
prop('S02', 'TimeShift moves every timestamp by its configured amount',
     'TimeShift emits each received message once with its value unchanged and its timestamp moved by dt times the given number of repetitions, forwards or backwards. A timestamp that would become negative becomes 0.',
     ['inputs', 'configurations'], 'every timestamp up to 2^62, every shift with magnitude up to 2^40, both signs and zero',
     'Tests use one small positive shift; zero and negative shifts and shifts beyond the timestamp are separate branches with unsigned arithmetic.',
     [S + 'TimeShift.h'], 'unsigned timestamp arithmetic with clamping at zero')
prop('S03', 'Difference emits the change between consecutive messages',
     'Difference emits, for every message after the first, the value of the newer of the last two messages minus the older one; nothing for the first message. The timestamp is that of the newer message, or that of the older message, as configured.',
     ['inputs', 'histories', 'configurations'], 'every stream and both configurations', ONE,
     [S + 'Difference.h'], 'two-element window')
prop('S04', 'Count and CumulativeSum are exact over any number of messages',
     'Count emits for the k-th message received the value k; CumulativeSum emits for the k-th message the sum of the first k values. Both keep the timestamp of that message and emit exactly once per message.',
     ['inputs', 'histories'], 'every stream, hundreds to thousands of messages', ONE,
     [S + 'Count.h', S + 'CumulativeSum.h'], 'running accumulators')
prop('S05', 'MovingAverage emits the mean of exactly the last n messages',
     'MovingAverage with window n emits nothing for the first n-1 messages and then for every message, with its timestamp, the arithmetic mean of the last n values, however long the stream.',
     ['inputs', 'histories', 'configurations'], 'every stream of reals, windows 1 to 64, streams of several hundred messages', ONE,
     [S + 'MovingAverage.h', C + 'Operator.h'], 'bounded data queue summed on every full window', 'queue of the last n messages')
prop('S06', 'StandardDeviation emits the sample deviation of the last n messages',
     'StandardDeviation with window n emits nothing for the first n-1 messages and then for every message, with its timestamp, the sample standard deviation (divisor n-1) of the last n values, however long the stream.',
     ['inputs', 'histories', 'configurations'], 'every stream of reals, windows 2 to 32, streams of a hundred messages', ONE,
     [S + 'StandardDeviation.h', C + 'Operator.h'], 'bounded data queue', 'queue')
prop('S07', 'FiniteImpulseResponse emits the weighted sum with coefficients newest first',
     'FiniteImpulseResponse with coefficients c0..c(n-1) emits nothing for the first n-1 messages and then for every message, with its timestamp, c0 times the newest value plus c1 times the value before it and so on to c(n-1) times the oldest of the last n values.',
     ['inputs', 'histories', 'configurations'], 'every stream and every coefficient vector of reals, up to 64 coefficients', ONE,
     [S + 'FiniteImpulseResponse.h'], 'bounded data queue and dot product')
prop('S08', 'AutoRegressive follows its recursion with zero initial values',
     'AutoRegressive with coefficients c1..cn emits exactly one message per received message, with its timestamp and value y(t) = x(t) + c1 y(t-1) + ... + cn y(t-n), where y is its own earlier output, c1 weighs the most recent one, and outputs before the first message count as zero.',
     ['inputs', 'histories', 'configurations'], 'every stream and coefficient vector of reals, orders 1 to 8, long streams',
     'The one unit test uses equal coefficients on one stream, for which coefficient order and warm-up cannot be told apart.',
     [S + 'AutoRegressive.h'], 'queue of past outputs', 'past outputs')
prop('S09', 'PeakDetector reports exactly the middle messages that top their window',
     'PeakDetector with window n emits, for every message from the n-th on, the middle message of the last n (position n/2 counted from the oldest, starting at 0) exactly when no message of the window has a greater value; the emitted message keeps its own value and timestamp.',
     ['inputs', 'histories', 'configurations'], 'every stream of reals including plateaus, windows 1 to 17', ONE,
     [S + 'PeakDetector.h'], 'bounded data queue, comparison with the middle element')
prop('S10', 'ConstantResampler emits the last known value on every grid point',
     'ConstantResampler emits exactly one message for every grid point t0+k*dt (k>=1, t0 the time of its first message) up to the newest message received, once that message arrives and in order, with the value of the last message at or before the grid point; it emits nothing else.',
     ['inputs', 'histories', 'configurations'], 'every increasing stream of timestamps and values, every interval', ONE,
     [S + 'ConstantResampler.h'], 'next emission time advanced by dt', 'next emission time and last value')
prop('S11', 'CosineResampler emits cosine interpolation on every grid point',
     'CosineResampler emits exactly one message for every grid point t0+k*dt (k>=1, t0 the time of its first message) up to the newest message received, once that message arrives and in order; its value is the cosine interpolation between the two consecutive messages around that point, a message exactly on the grid giving its own value.',
     ['inputs', 'histories', 'configurations'], 'every increasing stream of timestamps and values, every interval', ONE,
     [S + 'CosineResampler.h'], 'two-element window and pending emission time', 'carry over between windows')
prop('S12', 'HermiteResampler emits cubic Hermite interpolation on every grid point',
     'HermiteResampler emits exactly one message for every grid point t0+k*dt (k>=1, t0 the time of its first message) up to the second newest message received, in order, starting with the fourth message; its value is the cubic Hermite interpolation (zero tension and bias) between the messages around the point and their two neighbours. In place of the missing neighbour of the very first interval it uses the least-squares line through the first four values, equally spaced, extrapolated one step back.',
     ['inputs', 'histories', 'configurations'], 'every increasing stream of timestamps and values, every interval', ONE,
     [S + 'HermiteResampler.h'], 'four-element window, pending emission time, extrapolated first neighbour', 'carry over between windows')
prop('S13', 'Function interpolates through its points and extends its end segments',
     'Function emits one message per received message, same timestamp, with the value of its interpolant at the received value: it passes through every configured point whatever order they were given in; with linear interpolation it is the straight line between neighbouring points; beyond the first and last point the end segment is extended. With hermite interpolation every segment is the cubic Hermite curve with central-difference slopes at inner points and one-sided slopes at the ends (points on a straight line give that line).',
     ['inputs', 'configurations'], 'every real argument and every set of 2 to 5 points (any order)', ONE,
     [S + 'Function.h'], 'sorted points, piecewise evaluation')
prop('S14', 'Variable answers a query with the value in force at its time',
     'Variable answers a query on its control port, once, with the query time and the value of the last data message at or before it, or the default value if the query lies before the first data message ever received; the answer is given as soon as a data message at or after the query time is known and not before. Of several queries waiting at the same time only the latest is answered.',
     ['inputs', 'schedules', 'histories'], 'every interleaving of data and query messages with increasing timestamps per port',
     'Tests fix the interleaving; early, late and exactly coinciding queries with backlog are not enumerated.',
     [S + 'Variable.h'], 'data queue trimmed while answering a one-element query queue', 'data queue, pending query, initialised flag')
prop('S15', 'Plus, Minus, Multiplication and Division combine the matching messages',
     'Plus, Minus, Multiplication and Division emit, exactly once for every timestamp present on both inputs and in time order, one message with that timestamp and value a+b, a-b, a*b, a/b, where a came in on the first port and b on the second; timestamps present on only one input produce nothing, and neither does a division by zero.',
     ['inputs', 'schedules', 'histories'], 'every interleaving of two increasing streams with arbitrary values', ONE,
     [S + 'ArithmeticSync.h', S + 'Plus.h', S + 'Minus.h', S + 'Multiplication.h', S + 'Division.h', C + 'Join.h'], 'Join specialised with a binary operation')
prop('S16', 'Comparisons and logic between streams follow their truth tables',
     'And and Or emit for every timestamp present on both inputs 1 or 0 according to the truth of the two values (a value is true from 0.5 on). GreaterThanStream and LessThanStream emit for such a timestamp the first input\'s message exactly when its value is strictly greater, respectively less, than the second\'s.',
     ['inputs', 'schedules', 'histories'], 'every interleaving of two increasing streams with arbitrary non-NaN values', ONE,
     [S + 'And.h', S + 'Or.h', S + 'GreaterThanStream.h', S + 'LessThanStream.h', S + 'FilterSyncBinary.h', S + 'ArithmeticSync.h'], 'Join specialised with a predicate')
prop('S17', 'Linear emits the combination with each coefficient on its own port',
     'Linear with coefficients c1..cn emits, for every timestamp present on all n inputs and in time order, one message with that timestamp and value c1*x1 + ... + cn*xn, xk being the value received on port ik, for any n >= 2.',
     ['inputs', 'schedules', 'configurations'], 'every interleaving of the ports, arbitrary values and coefficients, 2 to 12 ports',
     'The tests use two and three ports; the pairing of coefficients and ports is only observable with ten or more.',
     [S + 'Linear.h', S + 'ArithmeticSync.h', C + 'Join.h'], 'Join specialised with a weighted sum')
prop('S18', 'Operator output is causal, time-ordered and private to its instance',
     'Fed strictly time-increasing input on every port, every operator emits strictly time-increasing messages on each output port, never with a timestamp later than the newest one received (a forward TimeShift excepted). What an operator emits depends on its parameters and its own input only, not on what other operators of the same kind in the process are fed.',
     ['inputs', 'histories', 'schedules'], 'all operator types, every stream up to the bounds, another instance fed in between',
     'A duplicated or reordered emission appears only for particular gaps or arrival orders; tests never interleave two instances.',
     [C + 'Operator.h', C + 'Join.h', S + 'ConstantResampler.h', S + 'CosineResampler.h', S + 'HermiteResampler.h', S + 'PeakDetector.h', S + 'Variable.h'], 'queues processed front first, state held in members')
prop('F01', "RelativeStrengthIndex follows Wilder's smoothing over the whole stream",
     "RelativeStrengthIndex with period n emits nothing for the first n messages and then, per message and with its timestamp, 100 - 100/(1 + gain/loss), where gain and loss are the averages of the n first upward and downward changes, afterwards smoothed as (previous*(n-1) + current)/n. When the loss is zero it emits 100.",
     ['inputs', 'histories', 'configurations'], 'every stream of reals, periods 2 to 14', ONE,
     [F + 'RelativeStrengthIndex.h'], 'averages kept across messages', 'average gain, average loss')
prop('A01', 'An operator described in JSON behaves like the one built in code',
     'For every operator type the program format knows, an operator created from its JSON description with given parameters emits, for every input, the same messages as the operator built in code with those parameters; an omitted optional parameter takes its documented default.',
     ['programs', 'configurations', 'inputs'], 'every operator type, parameter values including large and fractional ones, every stream up to the bound',
     'The API library is not even compiled by the tests that run; parameters lost or truncated in the JSON layer need non-default values to show.',
     [A + 'src/FactoryOp.cpp', A + 'include/rtbot/FactoryOp.h'], 'from_json/to_json per operator registered in a table keyed by type')
prop('A02', 'Reading back a written operator description gives the same operator',
     'Writing an operator as JSON and reading it back yields an operator that emits the same messages for every input and whose written form is identical. This holds for every operator type the program format knows.',
     ['programs', 'configurations', 'inputs'], 'every operator type, non-default parameters, every stream up to the bound',
     'A parameter written under another name, or not at all, shows only when it differs from the default.',
     [A + 'src/FactoryOp.cpp', A + 'include/rtbot/FactoryOp.h'], 'to_json/from_json')
prop('A03', 'A program reports exactly the outputs its definition selects',
     'A program fed a message reports, of everything its operators emitted for that message, exactly the messages of the operators and ports listed in its output definition, complete and in order, and nothing else; in debug mode it reports the messages of all operators and ports.',
     ['programs', 'inputs'], 'programs with filters over several operators and ports, every stream up to the bound',
     'The tests that cover the API are not part of the build; one program, one output.',
     [A + 'src/Program.cpp', A + 'include/rtbot/Program.h'], 'processMessage with filter or debug variants')
prop('A04', 'A serialized program restored elsewhere continues identically',
     'Serializing a program at any point and building a program from the bytes gives a program that answers every further message exactly as the original does. Serializing changes nothing in the original.',
     ['histories', 'crash_points', 'programs'], 'every cut point of every stream up to the bound, programs with stateful, synchronising, resampling and pipeline operators',
     'Needs state at an arbitrary point; the unit test compares one moment of one program.',
     [A + 'src/Program.cpp', A + 'include/rtbot/Program.h', A + 'include/rtbot/Pipeline.h', C + 'Operator.h'], 'Program::collect/restore over all operators, JSON text plus state bytes', 'all operator state')
prop('A05', 'A Pipeline in a program behaves like its operators written out',
     'A program that contains a Pipeline emits, on the pipeline\'s outputs, the same messages as the program in which the pipeline\'s operators and connections are written out in its place, for every input.',
     ['programs', 'inputs'], 'pipelines with one and several inputs and outputs, every stream up to the bound',
     'Not compiled by the tests that run.',
     [A + 'src/Pipeline.cpp', A + 'include/rtbot/Pipeline.h'], 'Pipeline owns operators and maps ports')
prop('A06', 'Programs managed side by side do not influence each other',
     'With several programs created under different ids, what one of them reports for a message is the same as if it were the only one, whatever is sent to, created or deleted among the others in between. An id that does not exist is reported as absent, not served by another program.',
     ['schedules', 'histories', 'programs'], 'every interleaving of messages, creations and deletions over three ids up to the bound',
     'Interference needs an interleaving of several programs.',
     [A + 'include/rtbot/FactoryOp.h', A + 'src/FactoryOp.cpp', A + 'include/rtbot/bindings.h'], 'map from id to Program')
prop('A07', 'Buffered messages are processed exactly once and in order',
     'Messages added to a program\'s buffer and then processed give the same reports as sending each of them directly, port by port in the order they were added; processing empties the buffer and deleting the program discards it, so no message is ever processed twice or by a later program of the same id.',
     ['schedules', 'histories', 'inputs'], 'every interleaving of adding, processing and deleting over two ids up to the bound',
     'Needs a history of buffer operations.',
     [A + 'include/rtbot/FactoryOp.h', A + 'src/FactoryOp.cpp', A + 'src/bindings.cpp'], 'messageBuffer per program id', 'message buffer')
prop('A08', 'A program that cannot run as described is rejected when it is created',
     'Creating a program whose description names an unknown operator type, the same operator id twice, an operator with an unusable window, interval, coefficient list or port count, a connection to or from an unknown operator or port, or an entry operator that is missing, does not exist or has control inputs fails with an error, leaves no program behind under that id, and leaves all other programs untouched.',
     ['programs', 'configurations'], 'every listed kind of defect in a valid program',
     'Each defect is a separate path; tests cover valid programs.',
     [A + 'src/Program.cpp', A + 'src/FactoryOp.cpp', A + 'src/bindings.cpp', A + 'src/Pipeline.cpp'], 'checks in Program::init and Operator::connect')
prop('A09', 'Serialization of a program depends only on its definition and history',
     'Two programs created from the same description and fed the same messages serialize to identical bytes, and serializing twice without a message in between gives identical bytes.',
     ['histories', 'programs'], 'every history up to the bound, programs with every stateful operator',
     'Uninitialised state only shows by chance.',
     [A + 'src/Program.cpp', C + 'Operator.h', S + 'ConstantResampler.h'], 'collect() writes the state of every operator')
prop('A11', 'The text interface reports exactly what the programs report',
     'The string-based interface (message maps, message buffer, batches, their debug variants, and the queries for entry operator, entry ports and output selection) answers in JSON with exactly the operators, ports, timestamps and values, in order, that the program itself reports; a batch is processed like its messages added one by one. Batches whose vectors differ in length, and calls that name an absent program, are refused and change nothing.',
     ['inputs', 'histories', 'programs'], 'every stream up to the bound on one and two ports, every combination of vector lengths',
     'The bindings are not compiled by the tests that run; a swapped or narrowed field shows only for particular numbers.',
     [A + 'src/bindings.cpp', A + 'include/rtbot/bindings.h', A + 'include/rtbot/FactoryOp.h'], 'conversion of reports to JSON, batch filling of the message buffer')
prop('A12', 'The Python module exposes the text interface unchanged',
     'Every function of the Python module does, with its arguments in order and unaltered, what the C++ text interface function of that name does, and gives back its answer: creating, deleting, validating and serializing programs, filling and processing the message buffer (plain and debug) and the queries for entry operator, entry ports and output selection. Times keep their full 64 bits and values every bit of the double.',
     ['inputs', 'histories', 'programs'], 'every stream up to the bound through every exposed function, two programs side by side',
     'The module is not built by the tests that run; a name bound to a neighbour function or a narrowed argument shows only when that function is called with telling numbers.',
     ['libs/wrappers/python/rtbot.cpp', A + 'include/rtbot/bindings.h', A + 'src/bindings.cpp'], 'pybind11 definitions, one per function')
prop('A13', 'The WebAssembly module exposes the text interface unchanged',
     'Every function and value type of the WebAssembly module does, with its arguments in order and unaltered, what the C++ text interface function of that name does, and gives back its answer; addToMessageBuffer takes whole times up to 2^53, and its batch functions take 32-bit times and process exactly the messages with those times, values and ports. The fields of the exposed message type are the time and the value of the message.',
     ['inputs', 'histories', 'programs'], 'every stream up to the bound through every exposed function, two programs side by side',
     'The module is not built by the tests that run; swapped or narrowed fields and mismatched names show only in a browser.',
     [A + 'wasm/emscripten-bindings.cpp', A + 'include/rtbot/bindings.h', A + 'src/bindings.cpp'], 'embind definitions, one per function')
prop('A14', 'What the published operator schemas accept is built as they document it',
     'Every operator description that conforms to the published JSON schema of its type is accepted by the text interface and built with exactly the given parameters, an absent optional parameter taking the documented default. A description that does not conform (a parameter missing, of another type, or outside its documented range) is refused by the validation functions and by program creation with an explanation, and nothing is created.',
     ['programs', 'configurations', 'inputs'], 'every published operator schema, every choice of absent parameters, arbitrary parameter values in and around the documented ranges',
     'Schemas are generated from documentation pages and meet the C++ readers only in a full build that the running tests do not contain.',
     [A + 'src/bindings.cpp', A + 'src/FactoryOp.cpp', 'tools/generator/src/index.ts', 'tools/generator/templates/cpp/jsonschema.hbs', S + 'Linear.md', C + 'Join.md'], 'schemas generated from the front matter of the operator pages, validated before FactoryOp reads the description')
prop('W01', 'The Python helper describes and runs programs exactly as given',
     'The Python Program writes exactly the fields, operators and connections it was given, and reading its text back gives the same; adding an operator with an id in use or without id, and connecting operators the program does not have, is refused and changes nothing. Run sends the program as described, feeds each row\'s values to the entry ports in order with the row\'s time, evaluates once per row, reports every message of every operator and port in order, and releases the program; a refused program is not run and the reason is reported.',
     ['programs', 'inputs', 'histories'], 'every combination of fields and edits, every data and every pattern of replies up to the bound',
     'The wrapper tests need the compiled module and are not run; a dropped reply or swapped column shows only for particular replies.',
     ['libs/wrappers/python/rtbot.py'], 'Program and Run classes')
prop('W02', 'The TypeScript helper edits, describes and runs programs exactly as given',
     'The TypeScript Program adds a connection only between operators it has and only once, deleting an operator removes it and exactly the connections that touch it, and deleting a connection removes exactly that one. Running or starting a program sends it as described. RtBotRun feeds each row\'s values to the entry ports in order with the row\'s time, evaluates once per row, gives every message of every operator and port in order (collapsed, or per row with its input), and releases the program; messages sent to a started program go to the named or first entry port and each call is answered with what its own messages produced, overlapping calls included. A refused program is not run and the reason is reported.',
     ['programs', 'inputs', 'histories', 'schedules'], 'every sequence of edits, every data, every pattern of replies and overlapping calls up to the bound',
     'The wrapper tests need the WebAssembly module and are not run; a wrongly kept connection or misplaced reply shows only for particular graphs and replies.',
     ['libs/wrappers/javascript/src/program.ts', 'libs/wrappers/javascript/src/api.ts'], 'Program, RtBot and RtBotRun classes')
prop('W03', 'Generated Python operators describe themselves as documented',
     'For every published operator type the generated Python class takes the documented parameters in documented order, requires the required ones, gives absent optional ones their documented default, describes itself under its type with exactly these parameters, and is built only if the library accepts that description, otherwise reporting the reason.',
     ['programs', 'configurations'], 'every published operator type, arbitrary parameter values, absent or given optional parameters',
     'The classes exist only after generation, which no running test performs; one wrong default makes the whole module fail to load.',
     ['tools/generator/src/index.ts', 'tools/generator/templates/python.hbs', S + 'Difference.md', S + 'Function.md'], 'classes printed by a template from the front matter of the operator pages')
prop('W04', 'The command line debugger sends every row and shows every message',
     'The debug command sends every row whose first two cells are numbers, once and in order, with rounded scaled time and scaled value, skips other rows, and prints, writes or shows the complete result of the run; verbosity changes none of it. On its interactive screen the position stays within the run, and the table has one row for the current iteration and each of up to ten following ones within the run, one column per port of the selected operators, and in each cell every message that port emitted, or a dash.',
     ['inputs', 'histories', 'configurations'], 'every data, option, step forward or backward and selection up to the bound',
     'No test covers the application; the end of a run, silent ports and long data are the cases that break.',
     ['apps/cli/src/commands/debug.ts', 'apps/cli/src/tui/store.ts'], 'preparation of rows before RtBotRun; store of the interactive screen', 'iteration, selection')
prop('R01', 'The Rust registry relates pipelines, input keys and output keys faithfully',
     'The Rust pipeline registry creates at most one pipeline per pair of input and output key, sends a message received for an input key to exactly its pipelines and reports each answer under its output key, and deletes exactly the pipelines named.',
     ['histories', 'inputs'], 'every history of create, receive and delete',
     'No test covers it.',
     ['apps/rtbot-rs/src/pipelines_registry.rs'], 'map of maps from input key to output key to pipeline id',
     na='The crate does not build at this commit (its cxx bridge names functions bindings.h no longer has: createPipeline, receiveMessageInPipeline). The registry alone, under kani with the bridge stubbed, gave no verdict in 13 minutes for a history of two calls: BTreeMap of String, formatting and Mutex exceed what CBMC unwinds here.')
for p in L:
    p['claimed'] = p['id'] in props.PROPS
with open(f'{V}/properties.jsonl', 'w') as f:
    for p in L:
        q = dict(p)
        claimed = q.pop('claimed')
        q.pop('na')
        f.write(json.dumps(q) + '\n')
checks = []
for p in L:
    if not p['claimed']: continue
    P = props.PROPS[p['id']]
    checks.append(dict(property=p['id'], quick_cmd=f'python3 check.py {p["id"]} quick', thorough_cmd=f'python3 check.py {p["id"]} thorough',
                       technique=P.get('technique', 'symbolic execution of the LLVM IR of the current sources with z3'), level='model_checking',
                       level_note='Holds for all values and schedules within: ' + P['bounds'].get('quick', '') + '. ' + ('Not covered: ' + P['outside'] + '. ' if P.get('outside') else '') + P.get('trusts', 'Doubles are reals unless the bound says IEEE. Trusts clang, z3, build/symex and harness/sym_rt.cpp; violations are reported only after native replay.')))
na = [dict(property=p['id'], reason=p['na'] or 'check under construction') for p in L if not p['claimed']]
json.dump(dict(version=1, setup_cmd='make -C engine OUT=../build', checks=checks, not_applicable=na, notes='See DESIGN.md. check.py <id> quick|thorough decides one property; check.py replay FILE replays a violation.'), open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
# DESIGN.md: head, one paragraph per property, tail
from design_notes import N
kf = json.load(open(f'{V}/known_findings.json'))
out = open(f'{V}/tools/design_head.md').read() + '## 3. Properties\n\nCost: quick checks take 5 to 80 s on 8 cores. Method for all: section 1; below only what differs.\n\n'
for p in L:
    P = props.PROPS.get(p['id'])
    if not P: continue
    how, oracle, why = N[p['id']]
    b = P['bounds']
    out += f"**{p['id']} {p['title']}** (`harness/{P['harness']}`, {len(P['entries']) or P['n']} entries). {how} *Oracle:* {oracle} *Bounds:* {b['quick']}" + (f"; thorough: {b['thorough']}" if b.get('thorough') else '') + '.' + (f" *Outside:* {P['outside']}." if P.get('outside') else '') + f' *Beyond tests:* {why}\n\n'
tail = open(f'{V}/tools/design_tail.md').read()
fx = ''
for l in kf['fixed']:
    a = l.split(' ', 3)
    fx += f"* {a[1].split('=')[1]} `{a[2]}`: {a[3]}\n"
sd = '| change | property | needs | breaks |\n|---|---|---|---|\n'
S_ = f'{V}/seeded'
for d in sorted(os.listdir(S_)) if os.path.isdir(S_) else []:
    m = f'{S_}/{d}/meta.json'
    if os.path.exists(m):
        m = json.load(open(m))
        sd += f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |\n"
open(f'{V}/DESIGN.md', 'w').write(out + tail.replace('@FIXED@', fx.rstrip('\n')).replace('@SEEDED@', sd.rstrip('\n')))
