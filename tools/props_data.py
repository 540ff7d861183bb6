prop("C01", "Time arithmetic is exact and Infinite is absorbing",
     "Time values form a total order in which all infinite times are equal to each other and greater than every finite one, and all six comparisons agree with it. "
     "Adding or subtracting finite times (or integers) is exact; any operation with an infinite operand, and any sum beyond the finite range, gives Infinite and never wraps around.",
     "all pairs of 64-bit time values and all integers / scale factors in the documented range",
     "The 64-bit input space cannot be sampled; the build's three tests do not touch time values at all.",
     ["src/ossia/editor/scenario/time_value.hpp"],
     [("time_value operators", "src/ossia/editor/scenario/time_value.hpp")],
     "Negative infinities (below minus the finite range) are outside the contracts' preconditions.")
prop("C02", "Loop splitting hands out exactly the tick, in order",
     "Splitting a forward tick over a loop calls back with non-empty consecutive chunks that never cross the loop end, start where the previous one stopped (modulo the loop, shifted by the loop start), "
     "carry the right offset in the tick and add up exactly to the tick. Every chunk that reaches the loop end, and no other, is followed by exactly one transport to the loop start; the splitting terminates.",
     "all start dates, tick lengths, loop durations and loop starts below 2^56, any number of loop turns",
     "The number of turns and the dates are unbounded; no test in the build runs a loop.",
     ["src/ossia/dataflow/token_request.hpp"],
     [("token_request::loop", "src/ossia/dataflow/token_request.hpp")],
     "The loop is cut with an inductive invariant over a ghost recorder of the callbacks; remainder by the loop duration is abstracted by valid lemmas.")
prop("C03", "A tick's direction, range, equality and sample mapping are coherent",
     "Every tick goes in exactly one direction (forward, paused, backward), covers its start included to its end excluded, and equals another tick exactly when all of its fields are equal; shifting or trimming it changes only the dates concerned. "
     "A negative offset is normalised to zero on construction. Model dates and sample positions map to each other by ratio over speed, and are mutually inverse at speed and ratio one.",
     "all ticks with finite dates (sample mapping: dates below 2^49, power-of-two speeds and ratios)",
     "The field space is unbounded and the arithmetic is floating point; no test in the build constructs a tick.",
     ["src/ossia/dataflow/token_request.hpp", "src/ossia/detail/math.hpp"],
     [("token_request methods", "src/ossia/dataflow/token_request.hpp"), ("constexpr_floor", "src/ossia/detail/math.hpp")],
     "Speeds and ratios in the mapping contracts are powers of two (exact scaling); other ratios are not decided.")
prop("C04", "Intervals execute their processes over exactly the time they pass",
     "The minimal, nominal and maximal durations of an interval stay in order: setting one sets it exactly and changes the others only to make room. A tick moves the interval by its duration times its speed (over the ratio), rounded up. Each enabled process, and the interval's node, get exactly one tick, from the old date to the new one, so that ticks follow each other without gaps; it carries the offset, the interval's duration, speed, tempo, signature and musical position. Nothing is executed before the interval's start. "
     "Starting (exactly if the offset is before the end), stopping, pausing, resuming, transporting, offsetting and muting reach every process exactly once, including processes added later while running or muted. Bars are computed from the last signature set at or before the date. A looping process goes back to its start offset at the end of its loop and plays the rest. The date of a sync is the sum of the durations before it.",
     "all dates, durations and offsets below 2^40 (durations: all 64-bit times), power-of-two speeds, all states of the lifecycle, two processes",
     "Dates, durations and speeds are unbounded and combined in floating point; no test in the build runs an interval.",
     ["src/ossia/editor/scenario/time_interval.cpp", "src/ossia/editor/scenario/time_interval.hpp", "src/ossia/editor/scenario/time_process.hpp"],
     [("time_interval::tick*, tick_impl, state", "src/ossia/editor/scenario/time_interval.cpp"), ("looping_process::state", "src/ossia/editor/scenario/time_process.hpp")],
     "Two processes per interval, power-of-two speeds, at most one change of signature with a quarter of 1024 units.",
     over=("inputs", "histories"))
prop("C05", "SLIP framing delivers every message intact and recovers after garbage",
     "For every message, the SLIP encoder writes END, the message with END and ESC bytes escaped, and END. The decoder, however the bytes are split over reads, delivers each non-empty frame exactly once with its exact content, "
     "treats END outside of a frame as the start of one, never delivers an empty or malformed frame, and after a malformed frame is in step again with the next message. Each read is followed by exactly one further read unless the stream is closed.",
     "all messages, all byte sequences, all decoder states, all splits into reads",
     "Needs every byte in every decoder state with any pending content; no test in the build touches the framing.",
     ["src/ossia/network/sockets/slip_framing.hpp"],
     [("slip_decoder::process_byte", "src/ossia/network/sockets/slip_framing.hpp"), ("slip_encoder::write", "src/ossia/network/sockets/slip_framing.hpp")],
     "Assumes that boost::asio::write sends the whole buffer.", over=("inputs", "histories"))
prop("C06", "Size-prefixed framing and socket writers carry each message whole",
     "The size-prefix encoder writes the message's size as 4 bytes, most significant first, and then the message. The decoder reads the whole prefix however it arrives, then exactly the announced number of bytes, delivers that frame once and unchanged, and goes on with the next one even when the handler throws; "
     "a failed read or a size that is not positive delivers nothing. A multi-socket writer gives every socket the whole buffer, once and in order; an aborted stream is reported once as a failure, a closed one once as closed, and neither is read further.",
     "all messages below 2^31 bytes, all sizes, all splits of the prefix, all error codes, any number of sockets",
     "Partial reads and error codes depend on the network; no test in the build touches the framing.",
     ["src/ossia/network/sockets/size_prefix_framing.hpp", "src/ossia/network/sockets/writers.hpp"],
     [("size_prefix_decoder", "src/ossia/network/sockets/size_prefix_framing.hpp"), ("stream_processor::validate_stream", "src/ossia/network/sockets/writers.hpp")],
     "Assumes the documented behaviour of boost::asio::write, async_read and async_read_some.", over=("inputs", "histories"))
prop("C08", "A value is a sound tagged union of its ten types",
     "A value holds exactly one of its ten types or is unset; its type is the one it was made from. Copies, moves and assignments (self-assignment included) give the same type and the same content, and leak nothing. "
     "target() is non-null and get() succeeds exactly for the held type and give the held content; any other get throws. A visitor is called exactly once, with the held type and content. Scalars are stored bit for bit, and the initial value of each type has that type and is zero or empty.",
     "every pair of types, every scalar content, both representations of strings",
     "All combinations of types, contents and operations on a hand-written union; no test in the build touches values.",
     ["src/ossia/network/value/value.hpp", "src/ossia/network/value/value_variant_impl.hpp"],
     [("value_variant_type", "src/ossia/network/value/value_variant_impl.hpp"), ("value, init_value", "src/ossia/network/value/value.hpp")],
     "Strings of 2 and 18 characters and lists of 0 and 2 elements stand for the two representations of the standard containers.")
prop("C07", "Clamping, wrapping and folding keep numbers in range; integer helpers are exact",
     "Clamping gives a value in [min, max] and leaves values already inside unchanged. Wrapping and folding give a value inside the range, leave values inside unchanged and repeat the range (wrapping) or mirror it at each end (folding) for values outside. "
     "log2 gives the position of the highest set bit; ipow and the other integer helpers are exact.",
     "all values and bounds for clamping; whole numbers below 2^20 for wrapping and folding, and any finite value for ranges that start at 0",
     "The arithmetic is modular and floating-point; errors only appear for particular relations between the value and the range.",
     ["src/ossia/detail/math.hpp"],
     [("clamp, wrap, fold, ipow, log2", "src/ossia/detail/math.hpp")],
     "Floating-point values that are not whole numbers are decided only for ranges that start at 0; the remainder is abstracted by valid lemmas.")
prop("C12", "Minuit texts and values correspond both ways",
     "Every type, service, bounding mode and attribute that has a Minuit text gets itself back from that text (vectors come back as lists, characters as strings); unknown or empty texts give an unset value or a parse error, never another item and never an out-of-bounds read. "
     "Commands, types and operations are read from their one-character codes, and the action address for a device is its name, the command character and the operation's name.",
     "all enumerators, all types, all texts (of any length for the first-character decodings)",
     "Each table has two hand-written halves that must agree for every entry; no test in the build touches Minuit.",
     ["src/ossia/network/minuit/detail/minuit_common.hpp", "src/ossia/network/minuit/detail/minuit_impl.cpp", "src/ossia/network/minuit/detail/minuit_name_table.hpp"],
     [("text conversions", "src/ossia/network/minuit/detail/minuit_common.hpp"), ("get_attribute, to_minuit_attribute_text", "src/ossia/network/minuit/detail/minuit_impl.cpp"), ("name_table::set_device_name", "src/ossia/network/minuit/detail/minuit_name_table.hpp")],
     "Device names of 2 and 18 characters stand for the two representations of the standard string.")
prop("C13", "Names are sanitised to the allowed characters and made unique among siblings",
     "Sanitising a name keeps its length and its allowed characters (letters, digits and _~().- =, and ':' except in device names) and turns every other character into an underscore. "
     "Among siblings, a free name is kept and a taken one gets an instance number that makes it differ from every sibling, with the same root. A text is a brace expansion exactly when it has braces or brackets and they are balanced.",
     "all names of any length for the characters; names of 8 shapes with up to 3 siblings for uniqueness; texts of up to 5 characters for braces",
     "Any byte can appear at any position, and clashes depend on the combination of the siblings' names; no test in the build creates nodes.",
     ["src/ossia/network/base/name_validation.hpp", "src/ossia/network/base/name_validation.cpp"],
     [("sanitize_name, sanitize_device_name", "src/ossia/network/base/name_validation.cpp"), ("is_brace_expansion", "src/ossia/network/base/name_validation.cpp")],
     "Uniqueness and brace expansion are bounded, exhaustive over the bound.")
prop("C16", "Curves go through their points and follow their segments",
     "A segment starts exactly at its start value and ends exactly at its end value, for every type of curve; the empty segment stays at its start, the linear one interpolates, the power one raises the ratio, and an eased one interpolates by what its easing gives. "
     "Every easing goes from 0 to 1, its 'out' form mirrors its 'in' form and its 'in-out' form is both at half the scale. "
     "A curve has its first value up to its start, its last value after its end, and in between evaluates exactly the segment that the abscissa is in, with the position in it and the values of the points around it; the order in which points are added does not matter.",
     "all start and end values and any easing for segments; ratios in 64ths for the easings; curves of up to 3 points, with all abscissae and values",
     "The only tests in the build check three values of the empty segment; continuity at the points has to hold for every value and every curve.",
     ["src/ossia/editor/curve/curve.hpp", "src/ossia/editor/curve/curve_segment/easing.hpp", "src/ossia/editor/curve/curve_segment/linear.hpp", "src/ossia/editor/curve/curve_segment/power.hpp", "src/ossia/editor/curve/curve_segment/empty.hpp"],
     [("curve::value_at", "src/ossia/editor/curve/curve.hpp"), ("easing functions", "src/ossia/editor/curve/curve_segment/easing.hpp"), ("curve_segment_linear", "src/ossia/editor/curve/curve_segment/linear.hpp"), ("curve_segment_power", "src/ossia/editor/curve/curve_segment/power.hpp")],
     "The easings are bounded to a grid of ratios and curves to 3 points; the dependencies' flat map and small function are replaced by stand-ins.")
prop("C09", "Converting a value gives the wanted type and keeps what can be kept",
     "Converting to a type, or to the type of another value, always gives that type; converting to a value's own type leaves it unchanged. A number converts to the other numeric types as in C++, a list or vector to its first element's number, an impulse or an unset value to zero. "
     "A number fills a vector, a shorter or longer vector gives the common components (the others keep the current value, or are zero), a list its elements; a vector becomes the list of its components, a list stays itself and anything else becomes a list of one. Texts of whole numbers convert to them, and other texts to 0.",
     "every pair of types and every numeric content; texts of up to 4 characters",
     "Eleven types convert to eleven types by overload resolution; a missing or wrong overload compiles and only shows for some pairs.",
     ["src/ossia/network/value/detail/value_conversion_impl.hpp", "src/ossia/network/value/value.cpp"],
     [("value_converter", "src/ossia/network/value/detail/value_conversion_impl.hpp"), ("convert(value, type), convert(value, value)", "src/ossia/network/value/value.cpp")],
     "The text of numbers (fmt) is not decided; texts to numbers are bounded to 4 characters; lists have up to two elements.")
prop("C11", "Comparing and hashing values is coherent",
     "Equality of values is symmetric, true for a value and its copies, and 'different' is its negation; 'below' and 'above', 'at most' and 'at least' are converses. Numbers compare as in C++, texts and vectors by content, lists element by element; an unset value only equals an unset one, "
     "an impulse equals anything but an unset value or a vector, a list of one element compares like the element, and a text never equals a number. Equal values of the same type have the same hash.",
     "every pair of types and every content, lists of up to two elements",
     "The comparison is a product of eleven types by eleven written as overloads; asymmetries only show for particular pairs.",
     ["src/ossia/network/value/value.cpp", "src/ossia/network/value/value_comparison.hpp", "src/ossia/network/value/value_hash.hpp", "src/ossia/detail/hash.hpp"],
     [("operator== and orderings of values", "src/ossia/network/value/value.cpp"), ("std::hash<ossia::value>", "src/ossia/network/value/value_hash.hpp")],
     "NaN is excluded from reflexivity. Strings of 2 and 18 characters stand for the two representations of the standard string.")
prop("C10", "Merging and indexing values keeps what is not addressed",
     "Merging into a list works element by element and keeps the elements that the source does not have; merging into a vector replaces the components that the source has numbers for and keeps its size; an unset destination takes the source, a list or vector never replaces a single value, and an existing single value is replaced only when the source has precedence. "
     "Writing at an index grows the lists on the way exactly as needed and changes nothing else; an element that was where a sub-list is needed becomes its first one. Reading at an index gives the element that it designates, and an unset value, never an out-of-bounds read, when there is none.",
     "all pairs of types and contents, lists of up to 3 elements, indices of up to 3 levels, any 32-bit index when reading",
     "The merge is a product of types and precedences; out-of-range indices depend on the shape of the value.",
     ["src/ossia/network/value/value_algorithms.hpp"],
     [("value_merger", "src/ossia/network/value/value_algorithms.hpp"), ("destination_index_retriever", "src/ossia/network/value/value_algorithms.hpp")],
     "Lists are bounded to 3 elements and indices written to to 0..3.")
prop("C17", "Domains bound the values they are applied to",
     "Applying a domain to a value gives a value inside it: numbers are clipped, wrapped, folded or bounded on one side by the bounds the domain has, component by component for vectors and element by element for lists; a value outside of a set of accepted values becomes unset. The type of the value is kept, and the free mode, an absent domain or an unset bound leave it unchanged. "
     "A domain gives back the bounds and values it was made of; changing or removing one bound leaves the other as it is.",
     "all numbers below 2^20 in magnitude, all bounding modes, every combination of present and absent bounds, every value type against every domain type",
     "Dispatch is a table of hand-written overloads per value type, domain type, mode and presence of each bound; no test in the build touches domains.",
     ["src/ossia/network/domain/domain_base.cpp", "src/ossia/network/domain/detail/domain_impl.cpp", "src/ossia/network/domain/clamp.cpp"],
     [("apply_domain, get_min, set_min, make_domain", "src/ossia/network/domain/domain_base.cpp"), ("numeric_clamp, vec_clamp, list_clamp, generic_clamp", "src/ossia/network/domain/detail/domain_impl.cpp")],
     "Value sets and lists have up to 2 elements. The numeric wrapping and folding operations are used through their contracts (C07).")
prop("C24", "Expressions have the truth value of their terms, and tell it",
     "An atom is true exactly when its comparison holds between its values, or the values that its parameters have at that moment; compositions are the and, or, exclusive or of their operands, a negation is the opposite of its operand, a pulse is true exactly when a message came since its last update. Updating pulls every parameter involved. "
     "Each listener is told the new result when an operand changes; operands are listened to exactly while there is a listener. Unset values, missing operands and empty listeners are refused. Two expressions are equal exactly when they have the same terms, and 'different' is the negation of 'equal'.",
     "all values, comparisons, operators and histories of messages, updates, listeners added and removed; compared expressions have depth 2",
     "Conditions decide whether scores go on; truth must hold for every value and every order of messages, updates and listeners. No test in the build makes an expression.",
     ["src/ossia/editor/expression/expression.cpp", "src/ossia/editor/expression/expression_atom.cpp", "src/ossia/editor/expression/expression_composition.cpp", "src/ossia/editor/expression/expression_not.cpp", "src/ossia/editor/expression/expression_pulse.cpp", "src/ossia/detail/callback_container.hpp"],
     [("evaluate, update, operator==", "src/ossia/editor/expression/expression.cpp"), ("expression_atom", "src/ossia/editor/expression/expression_atom.cpp"), ("expression_composition", "src/ossia/editor/expression/expression_composition.cpp"), ("expression_not", "src/ossia/editor/expression/expression_not.cpp"), ("expression_pulse", "src/ossia/editor/expression/expression_pulse.cpp"), ("callback_container", "src/ossia/detail/callback_container.hpp")],
     "Expressions are composed of operands used through the expression interface; the compared ones are bounded to depth 2. The dependency's variant is replaced by a stand-in.",
     over=("inputs", "histories"))
prop("C32", "Nodes are found at their addresses, and the tree tells its changes",
     "A node is found at the address made of the names on its path, from the root or relatively to an ancestor, and nothing is found elsewhere; the address with the device, the relative and the cached address agree with it. Creating a node at an address creates only what is missing, or a new instance beside an existing node, with a name unique among its siblings; renaming makes all addresses below follow. "
     "Each creation, renaming and removal is told once for each node and parameter concerned; removing a node removes everything below it and nothing else, and frees its name. A tree that is declared unchangeable does not change.",
     "trees of 3 levels and up to 5 nodes; names of every clashing and non-clashing shape, and any two bytes for one node",
     "Every protocol finds what it controls by address; correctness depends on the combination of names, clashes and histories of creations, renamings and removals. No test in the build makes a tree.",
     ["src/ossia/network/base/node.cpp", "src/ossia/network/base/node_functions.cpp", "src/ossia/network/base/osc_address.cpp", "src/ossia/network/generic/generic_node.cpp"],
     [("node_base", "src/ossia/network/base/node.cpp"), ("find_node, create_node, find_or_create_node", "src/ossia/network/base/node_functions.cpp"), ("address functions", "src/ossia/network/base/osc_address.cpp"), ("generic_node_base::set_name", "src/ossia/network/generic/generic_node.cpp")],
     "Bounded trees and names; one thread. Patterns (regular expressions) are not decided. The dependency's signals are replaced by a stand-in.",
     over=("inputs", "histories"))
prop("C33", "A parameter keeps its type, tells its listeners and sends what it stores",
     "A value given to a parameter is stored in the parameter's type, converted if needed; each listener is told the stored value exactly once, unless the change is quiet. Pushing sends exactly the stored value to the protocol exactly once, setting sends nothing; an unset value changes nothing and is not sent. "
     "A received message is stored, told and, if the device echoes, echoed. The protocol observes a parameter exactly while it has listeners. Changing the type gives its initial value. Attributes keep what they are set to, and a change, and only a change, is told with the attribute's name. A value is filtered out exactly when the parameter is disabled or muted, or filters repetitions and the value repeats the previous one.",
     "all values of all types given to parameters of all types, and all histories of listeners and attributes of the contracts",
     "Which branch converts, moves, tells and sends depends on both types and on the call used; no test in the build creates a parameter.",
     ["src/ossia/network/generic/generic_parameter.cpp", "src/ossia/network/base/parameter.cpp", "src/ossia/network/base/device.cpp", "src/ossia/network/base/node_attributes.cpp", "src/ossia/detail/callback_container.hpp"],
     [("generic_parameter", "src/ossia/network/generic/generic_parameter.cpp"), ("parameter_base", "src/ossia/network/base/parameter.cpp"), ("apply_incoming_message", "src/ossia/network/base/device.cpp"), ("callback_container", "src/ossia/detail/callback_container.hpp")],
     "Conversion is used through its contract (C09). One thread. Lists have up to two elements, strings 2 or 18 characters.",
     over=("inputs", "histories"))
prop("C30", "Ports keep, mix, scale and delay what they are given",
     "A value written to a port is kept with its date: a port that appends keeps every value in order, a port that replaces keeps exactly the last value written for each date. Copying from port to port adds the values with their dates and leaves the source as it is; with bounds on both ports the values are scaled linearly from the bounds of the source to the bounds of the sink, components and elements included, and without them they are kept as they are. A value from the environment is converted to the type of the port if it has another one, then taken at the index of the port. "
     "A delay line gives back at each position exactly what was written there, with its dates, and nothing after its end. Audio is mixed by summing, growing the sink as needed; an audio outlet multiplies each channel exactly once by the last gain and by its pan, a missing pan being 1. A MIDI message has the type, channel and data that it was made with, in order, whatever the channel number. A cable is there once, exactly while it is connected.",
     "all values, dates, bounds, samples, gains and MIDI bytes; up to 3 values, channels, messages",
     "Every tick of a score moves data through these functions, whose branches depend on the mixing method, on dates that coincide or not, on types, bounds and sizes; no test in the build uses a port.",
     ["src/ossia/dataflow/data.cpp", "src/ossia/dataflow/data_copy.hpp", "src/ossia/dataflow/port.cpp", "src/ossia/dataflow/port.hpp", "src/ossia/dataflow/midi_port.hpp"],
     [("value_port::write_value, add_port_values, add_local_value, process_control_value, ensure_vector_sizes", "src/ossia/dataflow/data.cpp"), ("mix, copy_data, copy_data_pos", "src/ossia/dataflow/data_copy.hpp"), ("audio_outlet::post_process, process_audio_out_*", "src/ossia/dataflow/port.cpp"), ("midi_port", "src/ossia/dataflow/midi_port.hpp"), ("connect, disconnect", "src/ossia/dataflow/port.hpp")],
     "Floating-point sums and products are uninterpreted functions of their operands (with the identities of IEEE 754), so results are compared as the same operations. Bounded numbers of values, channels and samples. Conversion between types is used through a contract.",
     over=("inputs", "histories"))
prop("C34", "Scenarios play intervals and events in time and dispose what cannot happen",
     "Nothing happens in a scenario before its first tick; then its start happens. An interval runs from the time its start event happens, with exactly the time it lasts given to its processes, which start and stop once; an interval of a fixed duration ends exactly after it, also inside of a tick, and the next one starts there. "
     "A synchronisation waits for every branch that leads to it and is not disposed, so all of them go on until then; a trigger happens at the first tick after the minimum at which it was asked for or its expression holds, and at the maximum otherwise. An event whose condition is false, and an event to which only disposed ones lead, is disposed, once, never happens, and nothing that follows from it runs. "
     "Each event tells once that it happened or was disposed. Stopping stops all intervals and resets all events, so that the scenario plays the same again. Adding twice is adding once, and removing something keeps the rest.",
     "all durations and tick lengths below 2^40, all outcomes of conditions and triggers, one to three ticks, the graphs of the contracts (up to 4 syncs, 6 events, 5 intervals)",
     "When an event happens depends on how the ticks fall relative to all durations, and disposal depends on the history; no test in the build plays a scenario.",
     ["src/ossia/editor/scenario/scenario.cpp", "src/ossia/editor/scenario/detail/scenario_execution.cpp", "src/ossia/editor/scenario/detail/scenario_sync_execution.cpp", "src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp", "src/ossia/editor/scenario/time_event.cpp", "src/ossia/editor/scenario/time_sync.cpp"],
     [("scenario::start, stop, pause, resume, add_*, remove_*", "src/ossia/editor/scenario/scenario.cpp"), ("scenario::state_impl, run_interval, make_happen, make_dispose", "src/ossia/editor/scenario/detail/scenario_execution.cpp"), ("scenario::process_this, trigger_sync, is_timesync_ready", "src/ossia/editor/scenario/detail/scenario_sync_execution.cpp"), ("time_event, time_sync", "src/ossia/editor/scenario/time_event.cpp")],
     "BOUNDED, not a proof for all scores: fixed graphs and one to three ticks, with all durations and tick lengths symbolic. Constant speeds and no quantification. Where branches of different durations meet inside of one tick, only that the next interval starts, and does not last longer than its maximum, is required, not its exact place in that tick. Restarting a root by a new trigger, offset and transport are not decided.",
     over=("inputs", "histories"), level="model_checking")

# what this family of technique does not decide here
def na(id, title, statement, reason, files):
    prop(id, title, statement, "all inputs and histories", "Needs schedules, networks or dependencies that no test in the build has.", files, [(files[0].rsplit("/", 1)[-1], files[0])], over=("inputs", "schedules"), claimed=False, reason=reason)
na("N01", "Parameters, nodes and callbacks may be used from several threads", "Getting, setting and observing a parameter, and adding or removing its callbacks, from different threads never races, loses an update or deadlocks.",
   "The contracts are sequential: the verifier has no memory model for threads and no ownership discipline for the mutexes of the real classes; a race is not an obligation it can generate.", ["src/ossia/detail/callback_container.hpp", "src/ossia/network/generic/generic_parameter.cpp"])
na("N02", "An OSCQuery client mirrors its server", "After any history of changes on the server, and any order of the messages on both sockets, the client's tree has the same nodes, types, values and attributes.",
   "rapidjson's parser and writer, websocketpp and two asynchronous sockets are in the loop; none of them is under contract and the property is about their interleaving.", ["src/ossia/network/oscquery/oscquery_server.cpp", "src/ossia/network/oscquery/oscquery_mirror.cpp"])
na("N03", "OSC packets round-trip through the OSC protocol", "A value sent as OSC arrives as the same value at the same address, for every type and every unit.",
   "The encoder and decoder are oscpack's (a submodule that is not part of the tree here); without its sources only stand-ins could be put under contract.", ["src/ossia/network/osc/detail/osc.hpp", "src/ossia/network/osc/osc.cpp"])
na("N04", "Patterns find exactly the nodes that match", "A pattern with wildcards, braces and brackets selects exactly the nodes whose address matches it.",
   "Patterns are translated to std::regex and matched by its automaton, whose construction and recursion depth are far outside of what the VC generator can execute symbolically; C13 decides the recognition of brace expansions.", ["src/ossia/network/base/node_functions.cpp", "src/ossia/network/common/path.cpp"])
na("N05", "Units convert to each other and back", "Converting between units of a dataspace and back gives the original value, and passes through the neutral unit.",
   "The conversions are products of transcendental functions (sin, cos, pow, log) on floats; no available solver decides them, and with uninterpreted functions inverse conversions are not provable.", ["src/ossia/network/dataspace/dataspace_visitors.cpp", "src/ossia/network/dataspace/dataspace.hpp"])
na("N06", "The execution graph runs each node once per tick, after its sources", "In every tick each enabled node runs exactly once, after all nodes it depends on, and delayed cables break cycles.",
   "The order is computed with boost::graph (adjacency lists, topological sort, transitive closure) over hash maps of pointers: symbolic execution of those is out of reach, and a stand-in for the sort would be a proof about the stand-in. C30 decides what the nodes exchange.", ["src/ossia/dataflow/graph/graph_static.hpp", "src/ossia/dataflow/graph/tick_methods.hpp"])
na("N07", "Presets and JSON round-trip", "A preset written to text and read again gives the same values at the same addresses.",
   "rapidjson and the boost::spirit grammars for values are the code that decides it; both are template recursion over input streams that the VC generator cannot execute on symbolic text in bounded time (tried for the number texts of C09, which stay at concrete shapes).", ["src/ossia/preset/preset.cpp", "src/ossia/network/value/detail/value_parse_impl.hpp"])
na("N08", "Audio and MIDI devices deliver every buffer", "Each audio callback runs exactly one tick of the score and copies every channel, whatever the block size.",
   "Needs the audio back ends (JACK, PortAudio, SDL) and real-time threads, which do not exist in the sandbox.", ["src/ossia/audio/audio_protocol.cpp"])
