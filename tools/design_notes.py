# per property: how it is decided, oracle, why beyond tests
N = {}
N['C01'] = ('Streams of messages with arbitrary 64-bit times and values on 1-12 ports go through the real Input.', 'A reference gate: per port, pass iff the time exceeds the last passed one.', 'Every order relation of the times is a path; tests feed a handful of streams.')
N['C02'] = ('Every interleaving of messages with strictly increasing arbitrary times per port is delivered to the real Join; a 4-6 slot time grid adds every subset of times per port in both arrival orders.', 'After each arrival: the set of timestamps that are complete by now must have been released, once, in time order, with the values of each port.', 'Late completion (the defect found) needs a stale queue in front of a complete tuple.')
N['C04'] = ('Every interleaving of data and 0/1 instructions, up to 12 ports and a 70-message lag.', 'Per data message: emitted on exactly the outputs whose instruction is 1, when the last instruction is in, in order. Wrong instructions must raise an error.', 'Interleavings and instruction words multiply.')
N['C05'] = ('Graph families (fan-out, diamonds, parallel edges, data plus control edges, bursts, chains) with edges added in every order.', 'What each descendant must have emitted per message, computed from the graph.', 'Order of connections and equal times inside a burst are not sampled by tests.')
N['C06'] = ('Operator kinds, port names and constructor arguments chosen symbolically.', 'Which connections exist afterwards, observed by sending a message; refused wiring leaves nothing behind.', 'Combinatorial; the failing ones are never tried by tests.')
N['C07'] = ('For every operator type: any history up to the bound, cut at every place, collect, restore into a fresh instance, continue both.', 'The original operator and an untouched twin, message by message, errors included; collect changes nothing and restore consumes exactly its bytes.', 'A lost field shows only at particular cut points.')
N['C08'] = ('Every create method of Composite against the operator wired by hand.', 'The hand-wired operators.', 'Per method; an ignored optional argument is invisible with defaults.')
N['C09'] = ('Arbitrary doubles, also all IEEE-754 values including NaN, against arbitrary thresholds.', 'The comparison itself.', 'Boundary and special values.')
N['S01'] = ('Arbitrary value, constant and time.', 'The arithmetic expression; same time; one output per input.', 'All IEEE doubles, not samples.')
N['S02'] = ('Arbitrary dt of either sign, repetitions and timestamps.', 'Shift in 128-bit arithmetic, clamped at 0.', 'Wrap-around and clamping need extreme times.')
N['S03'] = ('Arbitrary times and values, both configurations.', 'Newer minus older value, time of the configured message.', 'Timestamps beyond 2^53.')
N['S04'] = ('Arbitrary streams, and streams of thousands.', 'k and the exact sum of the first k values.', 'Length.')
N['S05'] = ('Windows 1-64, arbitrary values.', 'Sum of the last n symbolic values divided by n.', 'Eviction errors show only after the window has slid.')
N['S06'] = ('Windows 2-32, arbitrary values.', 'Two-pass variance of the last n values (square compared).', 'As S05.')
N['S07'] = ('1-64 coefficients, arbitrary where up to 17.', 'Weighted sum over the last n values.', 'Order of the coefficients, long filters.')
N['S08'] = ('Arbitrary coefficients and values.', 'The recursion evaluated symbolically.', 'Coefficient order shows only with unequal coefficients.')
N['S09'] = ('Windows 1-17, arbitrary values.', 'No value of the window greater than the middle one.', 'Plateaus and ties.')
N['S10'] = ('Intervals 1, 3, arbitrary; every gap pattern; arbitrary base time.', 'Closed form of the grid and the last value at or before each point.', 'Gap patterns; beyond 2^32.')
N['S11'] = ('As S10.', 'Grid times and cosine weight with the same uninterpreted cosine of the exact argument.', 'As S10.')
N['S12'] = ('As S10, starting with the fourth message.', 'Independent Hermite evaluation with the least-squares neighbour for the first interval.', 'First-interval special case with every gap pattern (two defects found).')
N['S13'] = ('2-5 points in any order, arbitrary values and argument.', 'Independent interpolant; also: straight line reproduced, slopes continuous at the points.', 'Segment choice at borders; uneven spacing (defect found).')
N['S14'] = ('Every interleaving of data and queries with every order relation of their times.', 'Reference: last value at or before, default before the first, answered as soon as decided.', 'Interleavings times time relations.')
N['S15'] = ('Every interleaving on two ports, arbitrary 64-bit times, all IEEE doubles.', 'The arithmetic on the pair of equal times.', 'As C02; special values.')
N['S16'] = ('As S15.', 'Truth tables with the 0.5 threshold, strict comparison.', 'As C02; ties.')
N['S17'] = ('2-13 ports with arbitrary coefficients.', 'Dot product by port number.', 'Ten or more ports (defect found).')
N['S18'] = ('Every operator type, with a second instance of the type fed another stream in between.', 'Output times strictly increasing and not beyond the newest input; output equal to an instance run alone.', 'Hidden shared state.')
N['F01'] = ('Periods 1-14.', "Wilder's averages computed symbolically.", 'Long smoothing, zero changes.')
N['A01'] = ('Parameters are symbolic numbers inside the JSON text; real parser and factory.', 'The operator built by its constructor with the same parameters, driven by the same stream.', 'Narrowed numbers, omitted options.')
N['A02'] = ('Operator written by the real writer, read back by the real reader.', 'The original operator and its text.', 'A dropped parameter is invisible with defaults.')
N['A03'] = ('Every selection of operator/port pairs; batches.', 'The report in debug mode, filtered by the harness; the graph wired by hand.', 'Combinations of selections.')
N['A04'] = ('Eight programs, every cut, serialize and rebuild.', 'The original and an untouched twin.', 'Cut points, late messages after the restore.')
N['A05'] = ('Fourteen families of programs with pipelines and all chains of two of 13 operator kinds.', 'The program with the inner operators written out.', 'Bursts, shared sources, nesting.')
N['A06'] = ('Every sequence of operations (send, query, create, delete, move by serialization) on three ids.', 'Each program run alone.', 'Histories.')
N['A07'] = ('Every sequence of buffer operations; messages in any order of time.', 'The same messages sent directly.', 'Histories with errors and deletions (two defects found).')
N['A08'] = ('A valid program with one of the listed defects, or malformed text.', 'Refused, nothing left behind, others untouched.', 'Each defect is its own path.')
N['A09'] = ('Pairs of programs with equal history, unwritten memory arbitrary, heap laid out in two ways.', 'Byte equality.', 'Uninitialised or address-dependent output shows only by chance.')
N['A11'] = ('The functions of bindings.cpp on arbitrary messages.', 'The JSON answer parsed and compared with the report of the program itself.', 'Narrowed or swapped fields.')
N['A12'] = ('The module source is compiled against a pybind11 stand-in that records name, function and argument types; every exposed function is then called by name on arbitrary messages.', 'The C++ function of that name on the same history.', 'The module is never built here; found that it did not compile.')
N['A13'] = ('As A12 with an embind stand-in, the value types and the batch functions included.', 'The C++ function of that name on the same history.', 'As A12.')
N['A14'] = ('`schema.py` builds `jsonschema.hpp` from the operator pages the way tools/generator does; descriptions with arbitrary values, absent optional parameters, and one parameter missing, mistyped or out of range go through the real `bindings.cpp`.', 'A table of documented types, ranges and defaults; an accepted description must behave like the operator built in code.', 'Documentation pages are code here: they decide what is accepted (four defects found).')
N['W01'] = ('crosshair runs `rtbot.py` symbolically, with stand-ins for the compiled module (answers nothing, one or three messages per input, as the inputs choose) and for json; an entry holds when all its paths are exhausted.', 'The calls the stand-in saw and the replies it gave.', 'Needs replies of every shape (two defects found).')
N['W02'] = ('`harness/ts` rewrites the TypeScript so that every operator, condition, key and built-in call goes through a run-time that carries a z3 term with every value (concolic: each run follows one path, z3 flips every branch condition until none is feasible, and decides every assertion under its path condition).', 'What the stand-in module was sent and answered; lists kept by the harness.', 'Edits of graphs, overlapping calls (two defects found).')
N['W03'] = ('The repository generator runs under node on the current pages; crosshair executes every generated class.', 'The front matter of the pages, read independently.', 'The generated module did not even load (one defect found).')
N['W04'] = ('As W02, on the command (with the real helper behind it) and the store of the screen; texts of numbers are unknown functions of the numbers.', 'Rows, factors and results as given.', 'End of run, silent ports (three defects found).')
