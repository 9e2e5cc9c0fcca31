"""The properties, their monitors and what each run means.  bin/gen.py derives
properties.jsonl and MANIFEST.json from this table."""
PROPS = {}


def P(id, title, statement, over, text, why, files, mechanism, runs, rule, state=(), observe=(), assumptions=(), note="", hook=None):
    PROPS[id] = dict(
        runs=runs, rule=rule, assumptions=list(assumptions), note=note,
        prop=dict(
            id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                         mechanism=[dict(name=n, where=w) for n, w in mechanism],
                         observe_at=list(observe), hook_needed=hook)))


P("C01", "Date and duration arithmetic: exact, saturating, totally ordered",
  "Durations and dates compare and combine as integers with one absorbing infinity: for finite operands every addition, subtraction (operator or in-place, with another date or with a number), negation, absolute value, distance, scaling, remainder and ratio gives the exact integer result whatever the signs, a sum that reaches the infinity threshold is infinite, and an infinite operand of an addition or subtraction always gives infinity. "
  "The six comparisons agree with each other and with that order, all infinite dates being equal and above all finite ones. "
  "Conversion of a date to samples at a rate gives the nearest sample (zero for infinite dates or non-positive rates), and the published time constants (flicks per second, millisecond, quarter at the root tempo of 120) and time-signature equality are consistent with it.",
  ["inputs"], "All pairs of dates over the 64-bit range: negative, zero, around the infinity threshold, infinite; all numeric operand types",
  "The upstream tests of dates use a few small positive literals; only curve-segment tests run here at all.",
  ["src/ossia/editor/scenario/time_value.hpp", "src/ossia/editor/scenario/time_signature.hpp", "src/ossia/detail/flicks.hpp"],
  [("saturating operators of time_value", "src/ossia/editor/scenario/time_value.hpp"), ("to_sample", "src/ossia/editor/scenario/time_value.hpp")],
  [("asan", "c01_time", [])],
  "Seeded operand pairs over the whole 64-bit range with weight on signs, thresholds and infinity, each judged against 128-bit arithmetic; a case is a distinct operand tuple.")

P("C02", "Execution ticks partition time and map exactly to samples",
  "A tick that is looped is cut in pieces which exactly cover it in order: each piece lies inside the loop, is non-empty, continues where the previous one ended in model time and in the buffer offset, keeps every other field of the tick, and a transport to the loop start is notified exactly when a piece reaches the loop end. "
  "Mapping between model time and physical samples is exact: start, read and write durations, dates in the tick and back follow ratio and speed, split ticks tile the buffer without overlap, and nothing is mapped past the buffer. "
  "Musical queries on a tick (next quantization date for a rate, metronome clicks, unexpected bar change, shortening a tick) report each bar or subdivision boundary exactly once, at its position inside the tick, and equality of ticks compares every field.",
  ["inputs", "histories"], "All tick dates, lengths, offsets, speeds, loop durations and sample ratios; all signatures, positions and quantization rates; sequences of consecutive ticks",
  "TokenRequestTest samples a dozen loops at offset zero and is not part of the buildable suite.",
  ["src/ossia/dataflow/token_request.hpp", "src/ossia/detail/math.hpp"],
  [("token_request::loop and the physical_* mappings", "src/ossia/dataflow/token_request.hpp"), ("get_quantification_date, metronome", "src/ossia/dataflow/token_request.hpp")],
  [("asan", "c02_token", [])],
  "Seeded ticks, loops and transports (a 9-bar transport cut at random); exact oracle in dyadic ratios; a case is a distinct tick/loop/transport.")

P("C03", "Values keep identity, compare, convert, index, merge and hash coherently",
  "A value holds exactly one of its types (or nothing) and copying, moving, assigning or visiting it, whatever it held before, yields that type and content without affecting the source or other copies; reading it as another type fails cleanly. "
  "Comparisons are consistent across all type pairs (numbers by numeric value, strings only with strings, an impulse equal to any scalar or list, lists element-wise and one-element lists as their element; != is the negation of ==, a<b mirrors b>a), and conversion to any type yields that type, is the identity on it, and gives the documented closest value (prefix of numeric text, first element of arrays, spread or filled vectors keeping the current components not provided). "
  "Reading at an index path, inserting at a path and merging values change and return exactly the addressed elements, and equal values hash equally while different components, orders and types spread.",
  ["inputs"], "All pairs of value types and contents, nested lists up to depth 4, all index paths",
  "ValueTest compares one literal per type; nothing crosses all type pairs, nesting, or merge/insert paths.",
  ["src/ossia/network/value/value.hpp", "src/ossia/network/value/value.cpp", "src/ossia/network/value/value_variant_impl.hpp", "src/ossia/network/value/value_algorithms.hpp", "src/ossia/network/value/value_conversion.hpp", "src/ossia/network/value/detail/value_conversion_impl.hpp", "src/ossia/network/value/value_comparison.hpp", "src/ossia/network/value/value_hash.hpp", "src/ossia/network/value/value_traits.hpp", "src/ossia/network/value/vec.hpp", "src/ossia/network/value/impulse.hpp"],
  [("value_variant_type special members and apply", "src/ossia/network/value/value_variant_impl.hpp"), ("value_comparison_visitor2, convert, get_value_at_index", "src/ossia/network/value/value.cpp"), ("value_merger", "src/ossia/network/value/value_algorithms.hpp")],
  [("asan", "c03_value", ["value", "net", "base"])],
  "Seeded pairs of values over all type pairs judged by a separate std::variant model, under ASan/UBSan; a case is a distinct pair, path or conversion input.")

P("C04", "The textual form of a value reads back as the value",
  "Every set value printed in its pretty textual form parses back to the same type and content (floats to within rounding), including strings and characters with quotes, backslashes and leading or trailing whitespace, and nested lists. "
  "Text presets made of address and value lines parse to exactly their entries. Any malformed or truncated text is rejected or read as a proper value without crashing or reading outside the text.",
  ["inputs"], "All values (nested lists included) and all byte strings near the grammar",
  "The parse tests check a dozen literals in one direction only.",
  ["src/ossia/network/value/detail/value_parse_impl.hpp", "src/ossia/network/value/format_value.hpp", "src/ossia/network/value/value.cpp"],
  [("value_prettyprint_visitor", "src/ossia/network/value/format_value.hpp"), ("x3 grammar", "src/ossia/network/value/detail/value_parse_impl.hpp")],
  [("asan", "c04_text", ["value", "net", "base"])],
  "Seeded values printed and parsed back; mutated texts parsed from exact-size heap buffers under ASan; a case is a distinct text.")

P("C05", "Units convert by their definition, both ways, and values merge in them",
  "Converting a value between two units of a dataspace gives the value their definitions give (to float precision, angles modulo a turn), for every pair of units: converting to the same unit is the identity, going to another unit and back returns the value wherever the definition is invertible, going through a third unit does not matter, and units of different dataspaces leave the value unconverted. "
  "Every unit and dataspace name reads back as the same unit, component names select their component, and merging a component or a whole value expressed in one unit into a value held in another changes exactly that component as seen in the source unit, whatever the types, and never anything for a component the unit does not have. Attaching a unit to a parameter or a value never changes the number of components.",
  ["inputs"], "All ordered pairs of the ~60 units, values over and past each unit's usual range, all component indices",
  "DataspaceTest checks single constants of a few units.",
  ["src/ossia/network/dataspace/*.hpp", "src/ossia/network/dataspace/dataspace.cpp", "src/ossia/network/dataspace/detail/*"],
  [("to_neutral/from_neutral of each unit", "src/ossia/network/dataspace/"), ("merge visitors", "src/ossia/network/dataspace/dataspace_visitors.hpp")],
  [("asan", "c05_units", ["net", "base", "value", "state"])],
  "Seeded values through every ordered pair of units judged by double-precision definitions; a case is a distinct (units, value).")

P("C06", "Bounded values stay in their domain; a domain keeps its bounds and values",
  "A value bounded by a domain keeps its type and shape and lies in the domain: clipped to the bounds present, wrapped modulo the range or reflected into it when both bounds exist (a degenerate range gives its only value), clamped on one side in the low and high modes, unchanged when free, when already inside, or when no bound applies; with a set of values it is kept if in the set and otherwise refused (unset). "
  "Vectors and lists are bounded component by component, whichever of the numeric, vector, list or generic domain bounds them, and the rvalue and const forms agree. "
  "A domain gives back the bounds and values it was given, setting or removing one bound leaves the other, copies are equal and independent, and conversion to another numeric type keeps bounds and values.",
  ["inputs"], "All value types, nested lists, all domain kinds with each bound absent or present, integer extremes, all bounding modes",
  "DomainTest applies single literals; bounding per type, shape and mode is a large product of cases.",
  ["src/ossia/network/domain/*.hpp", "src/ossia/network/domain/*.cpp", "src/ossia/network/domain/detail/*", "src/ossia/detail/math.hpp"],
  [("apply_domain_visitor", "src/ossia/network/domain/detail/apply_domain.hpp"), ("clamp, wrap, fold", "src/ossia/detail/math.hpp"), ("min/max visitors", "src/ossia/network/domain/detail/min_max.hpp")],
  [("asan", "c06_domain", ["net", "base", "value", "state"])],
  "Seeded (domain, mode, value) judged by a double-precision model of bounding; a case is a distinct triple.",
  assumptions=["bounds are ordered and finite; NaN is out of scope"])

DF = ["curve", "net", "base", "value", "state", "dataflow", "spline", "editor", "midi"]

P("C07", "Curves, easings, behaviours and splines give the value of the drawn curve",
  "A curve read at any abscissa gives its origin up to the origin, exactly its points on them, its last point after them, and between two points the value its segment gives at the relative position; adding, removing, copying or moving keeps that independently for each copy, and an origin taken from a parameter is read once per execution. "
  "Every easing starts at 0, ends at 1 and follows its published formula continuously; linear and power segments interpolate between their ends. "
  "Behaviours hold nothing, a curve or a list, survive copy, move and self-assignment, and computing or mapping a value through them yields the documented scalar, vector or list or rejects what cannot be mapped, which an execution node ignores. "
  "Splines evaluate as the B-spline of their points and knots; inserting knots, splitting, decomposing and copying keep the curve; interpolations pass through their points smoothly; invalid sizes, knots and positions are refused.",
  ["inputs"], "All curve types and point layouts, all easings over [0, 1], all behaviour trees, splines of degree 0 to 5 and dimension 1 to 4",
  "The curve test evaluates a handful of exact positions of linear segments; splines, easings, mappings and behaviours have no test.",
  ["src/ossia/editor/curve/*.hpp", "src/ossia/editor/curve/curve_segment/*.hpp", "src/ossia/editor/automation/*", "src/ossia/editor/mapper/detail/mapper_visitor.hpp", "src/ossia/dataflow/nodes/automation.hpp", "src/ossia/dataflow/nodes/mapping.hpp", "src/ossia/dataflow/nodes/spline.hpp", "src/ossia/dataflow/nodes/spline/*.hpp"],
  [("curve::value_at", "src/ossia/editor/curve/curve.hpp"), ("compute_value_visitor", "src/ossia/editor/automation/curve_value_visitor.hpp"), ("tinyspline", "src/ossia/editor/automation/tinyspline.c")],
  [("asan", "c07_curve", DF)],
  "Seeded curves, behaviours and splines judged by independent piecewise, Penner and de Boor references; a case is a distinct curve, easing position or spline.")

P("C08", "Stream framing delivers exactly the messages sent, in order",
  "A message written through the SLIP or size-prefix framing is put on the wire with exactly the bytes of its framing, whatever its content or length and however short the socket's writes are, on every connected socket. "
  "Decoding a stream, however it is cut in reads, delivers exactly the messages sent, once each, in order, and nothing for a message that is not entirely received. After noise or a truncated packet SLIP loses at most the next packet, an invalid escape or an empty packet loses nothing else; a negative size ends the reception. "
  "The end of a stream is notified once: closed at end of file, failed for any other error, and reading stops. Server replies keep their type and bytes.",
  ["inputs", "schedules", "faults"], "All message contents and lengths, all ways to cut the stream in reads and short writes, noise and errors at any point",
  "The OSC/TCP tests send a few short messages on loopback, where each arrives in one read; they are not part of the buildable suite.",
  ["src/ossia/network/sockets/slip_framing.hpp", "src/ossia/network/sockets/size_prefix_framing.hpp", "src/ossia/network/sockets/writers.hpp", "src/ossia/network/sockets/framing.hpp", "src/ossia/network/sockets/websocket_reply.hpp", "src/ossia/network/sockets/configuration.hpp"],
  [("slip_decoder::process_byte, slip_encoder::write", "src/ossia/network/sockets/slip_framing.hpp"), ("size_prefix_decoder", "src/ossia/network/sockets/size_prefix_framing.hpp"), ("stream_processor::validate_stream, multi_socket_writer", "src/ossia/network/sockets/writers.hpp")],
  [("asan", "c08_framing", ["net", "base", "value", "state"])],
  "Seeded message sequences through a scripted stream (chunked reads, short writes, injected errors) and real Unix sockets, compared with a byte-level reference; a case is a distinct stream.",
  assumptions=["sender uses double-ended SLIP as libossia does"])

BASE = ["net", "base", "value", "state"]

P("C09", "Search, lookup, attribute and vector helpers obey their mathematical model",
  "The lookup helpers over any container find the first matching element and report absence exactly when there is none; removing removes exactly the matching elements, keeps the others (in order when promised) and reports it; closest-element lookups give the nearest, next or last-before key. "
  "Ordered maps, sets, hash maps, pointer containers and string maps hold exactly one entry per key, iterate in key order when sorted, and find heterogeneous keys. "
  "Named attributes read back with the type they were set with, never under another type or name, independently of the source; the small, static and unaligned vectors, compact optionals, small strings and type lists behave as their standard counterparts across growth, copy, move and self-use. "
  "Compile-time iteration visits every element once in order, and clamping, wrapping, rounding and rescaling helpers return their mathematical value within their range.",
  ["inputs", "histories"], "All sequences of operations, container kinds, sizes around the inline capacity and at zero, key and value types",
  "No test covers these helpers; each is instantiated by many callers with different containers.",
  ["src/ossia/detail/*.hpp"],
  [("find, contains, remove helpers", "src/ossia/detail/algorithms.hpp"), ("any_map", "src/ossia/detail/any_map.hpp"), ("closest_next_value", "src/ossia/detail/closest_element.hpp")],
  [("asan", "c09_lookup", BASE)],
  "Seeded operation histories on the helpers compared step by step with standard containers; a case is a distinct operation history.",
  assumptions=["containers given to sorted lookups are sorted"])

P("C10", "Hashes are the published ones, equal on equal keys, and spread",
  "The 32-bit and 64-bit string hashes give the published MurmurHash3 result for every length, seed, content and memory alignment and never read outside the key; combining hashes depends on every component and on their order; the hash of a pair, a pointer, a string and its views is the same for equal keys, whatever object holds them. "
  "Pointers allocated next to each other, permuted or duplicated components, and keys differing in one byte spread over the table.",
  ["inputs"], "All strings (any length, byte, alignment), seeds, sequences of components, pointers",
  "Nothing tests hashing; a wrong tail byte only matters for some lengths and alignments.",
  ["src/ossia/detail/murmur3.hpp", "src/ossia/detail/hash.hpp", "src/ossia/detail/ptr_set.hpp", "src/ossia/detail/string_map.hpp"],
  [("murmur3 body and tail", "src/ossia/detail/murmur3.hpp"), ("hash_combine", "src/ossia/detail/hash.hpp"), ("EgurHash", "src/ossia/detail/ptr_set.hpp")],
  [("asan", "c10_hash", [])],
  "Seeded keys in exact-size unaligned buffers under ASan/UBSan compared with a byte-wise reference; a case is a distinct key.")

P("C11", "Every registered callback gets every event exactly once, whatever is concurrent",
  "A callback registered in a container, a parameter or a signal is called exactly once, in registration order, with the unchanged arguments of every event sent from its registration to its removal, and never after removal; disabling one keeps the others, and the first-added and last-removed hooks fire exactly on those transitions. "
  "Replacing, moving, copying or clearing containers, adding, removing and sending from several threads neither lose nor duplicate nor race nor deadlock. "
  "A message queue on a device delivers each new value of each registered parameter once, in order, and nothing for unregistered or removed parameters; a listening map stores exactly the entries added under concurrent use.",
  ["histories", "schedules"], "All sequences of add, remove, disable, replace, send and move; concurrent callers of each",
  "No test removes or disables callbacks while sending, nor from two threads.",
  ["src/ossia/detail/callback_container.hpp", "src/ossia/network/base/listening.hpp", "src/ossia/network/base/value_callback.hpp", "src/ossia/network/base/message_queue.hpp", "src/ossia/network/base/parameter.hpp"],
  [("callback_container, its mutex", "src/ossia/detail/callback_container.hpp"), ("message_queue registration", "src/ossia/network/base/message_queue.hpp"), ("locked_map", "src/ossia/network/base/listening.hpp")],
  [("asan", "c11_callbacks", BASE), ("tsan", "c11_callbacks", BASE)],
  "Seeded histories of container operations with a per-callback log compared with a model; multithreaded rounds under TSan with conservation of every event; a case is a distinct history.")

P("C12", "Pools, queues, timers, contexts, loggers and errors do exactly what they say",
  "An object acquired from a recycling pool belongs to its holder alone, has exactly the requested size (or capacity), and each released object is handed out again at most once, to one thread; the size classes partition all sizes. Inter-thread queues deliver every element once, in order. A locked view shows the container and excludes writers for its lifetime. "
  "A timer calls back repeatedly, never before its delay, and not after being stopped, restarted or destroyed. A network context runs every posted action once, in order, in the thread that runs it, blocks until stopped, and contains and reports what an action throws. "
  "The library logger writes to the sinks given; every error keeps its message and is catchable as its documented base; the type and mode enumerations, extended type names and their underlying types keep their published values.",
  ["inputs", "schedules", "histories"], "All sizes and operation histories; concurrent holders, readers and writers; all delays; all messages",
  "None of this infrastructure is tested and most of it only fails under concurrency or after reuse.",
  ["src/ossia/detail/buffer_pool.hpp", "src/ossia/detail/lockfree_queue.hpp", "src/ossia/detail/locked_container.hpp", "src/ossia/detail/mutex.hpp", "src/ossia/detail/timer.hpp", "src/ossia/detail/thread.cpp", "src/ossia/network/context*.hpp", "src/ossia/network/context.cpp", "src/ossia/context.cpp", "src/ossia/network/exceptions.*", "src/ossia/editor/exceptions.*", "src/ossia/preset/exception.*", "src/ossia/network/common/extended_types.*", "src/ossia/network/common/network_logger.hpp", "src/ossia/network/common/parameter_properties.hpp"],
  [("sized_object_pool::find_bucket", "src/ossia/detail/buffer_pool.hpp"), ("timer::start", "src/ossia/detail/timer.hpp"), ("network_context::run", "src/ossia/network/context.hpp")],
  [("asan", "c12_infra", BASE + ["preset"]), ("tsan", "c12_infra", BASE + ["preset"])],
  "Seeded histories on pools and queues compared with a model, concurrent rounds under TSan, timed runs of timers and contexts; a case is a distinct history, size or message.")

P("C13", "The node tree keeps unique names, true addresses and exact notifications",
  "Whatever sequence of creations, additions, renamings, removals and clearings is applied to a device, every node has a name of allowed characters, unique among its siblings: the name asked for when it is free, otherwise the next instance of its root name. "
  "Every address form (OSC, with device, relative, cached) is the path of current names, also below a renamed node; finding or creating by address reaches exactly the node of that address and creates only what is missing; a device whose tree is frozen does not change and says so. "
  "Listings contain every descendant to the asked depth once, parents first, by priority then natural name order; searches rank by score. "
  "Each creation, removal (descendants first), renaming, parameter creation and removal, and the death of each node is notified exactly once, also at the end of the device; concurrent creations keep names unique and lose no node.",
  ["histories", "inputs", "schedules"], "All histories of tree operations, all names (any byte), all addresses and depths, concurrent creators and removers",
  "Existing node tests follow a few fixed sequences with plain names; most of them are not in the buildable suite.",
  ["src/ossia/network/base/node.*", "src/ossia/network/base/node_functions.*", "src/ossia/network/base/name_validation.*", "src/ossia/network/base/osc_address.*", "src/ossia/network/base/address_scope.hpp", "src/ossia/network/generic/generic_node.*", "src/ossia/network/generic/generic_device.*"],
  [("node_base::create_child, add_child, remove_child", "src/ossia/network/base/node.cpp"), ("sanitize_name", "src/ossia/network/base/name_validation.cpp"), ("generic_node_base::set_name", "src/ossia/network/generic/generic_node.cpp")],
  [("asan", "c13_tree", BASE), ("tsan", "c13_tree", BASE)],
  "Seeded histories on a device compared node by node with a model tree and a log of every notification; concurrent histories under TSan; a case is a distinct history or name set.")

P("C14", "Address patterns select exactly the nodes they describe",
  "A pattern selects exactly the nodes whose path it describes: ? is at most one name character, * any number, ! an optional instance, [..] one of a class, {a,b} an alternative, {a..b} and {a..b..n} each number of the range, .. the parent, // any depth, dev:/ the device; every other character, dots and parentheses included, stands for itself. "
  "Traversal, matching a single node and searching by pattern agree, return each node once, and give the same result each time. "
  "Creating nodes from a brace expression creates one node for each combination of its alternatives, in order; finding or creating parameters gives each address a parameter of the type asked, without touching those which exist. "
  "The address regular expressions match exactly the addresses of their elements. No text, however malformed, breaks any of them or creates a forbidden or duplicate name.",
  ["inputs"], "All patterns (nested alternatives, ranges with any step, classes, escapes, devices, parents, any depth) over all trees; all malformed texts",
  "Path tests use a handful of patterns over four small trees and are not in the buildable suite.",
  ["src/ossia/network/common/path.*", "src/ossia/network/base/node_functions.cpp", "src/ossia/network/base/name_validation.*"],
  [("make_path, substitute_characters, apply", "src/ossia/network/common/path.cpp"), ("canonicalize_str, expand, expand_ranges", "src/ossia/network/base/node_functions.cpp")],
  [("asan", "c14_pattern", BASE)],
  "Patterns generated as syntax trees, rendered to text, run on seeded trees and judged by a set-of-positions matcher on the syntax tree; a case is a distinct pattern or text.",
  assumptions=["patterns short enough for the exponential std::regex"])

P("C15", "A parameter is one value, seen the same by user, network and observers",
  "Whatever the history of pushes, sets, pulls and incoming messages on a parameter, its value is the last one written, in the type of the parameter; each write calls every callback once with that value, quiet writes call none, each push reaches the protocol once and an incoming message is echoed and reported once. "
  "Muted, disabled and repeated values are filtered exactly as asked and what is sent is bounded by the domain; changing the type, unit, domain or any attribute is signalled once when, and only when, it changes. "
  "Every optional attribute of a node and of a full parameter description is read back as it was set, under its published name, leaks to no other node, is copied whole and disappears when unset; textual type names create parameters of exactly these types. "
  "Destinations read, compare and write the value of their parameter with their index and unit. Several threads writing, reading and observing one parameter see whole values and every write.",
  ["histories", "inputs", "schedules"], "All histories of operations on all parameter types; all attributes with all values; concurrent users of one parameter",
  "The repository's parameter tests set a few values once; none checks notification counts, filters over histories, nor concurrent use.",
  ["src/ossia/network/base/parameter.*", "src/ossia/network/base/parameter_data.*", "src/ossia/network/base/node_attributes.*", "src/ossia/network/generic/generic_parameter.*", "src/ossia/network/common/complex_type.hpp", "src/ossia/network/common/extended_types.*", "src/ossia/network/value/destination.hpp", "src/ossia/network/value/value.cpp", "src/ossia/network/base/message_origin_identifier.hpp", "src/ossia/network/osc/detail/osc.hpp"],
  [("generic_parameter::set_value, filter_value, set_unit", "src/ossia/network/generic/generic_parameter.cpp"), ("attribute getters and setters", "src/ossia/network/base/node_attributes.cpp"), ("setup_parameter", "src/ossia/network/base/parameter.cpp")],
  [("asan", "c15_parameter", BASE + ["osc"]), ("tsan", "c15_parameter", BASE + ["osc"])],
  "Seeded operation histories on a parameter with a recording protocol, compared after every step with a model of the value, attributes, callbacks, signals and network traffic; concurrent rounds under TSan; a case is a distinct history state.")

P("C16", "An expression is the boolean of its comparisons, live on every parameter change",
  "Evaluating an expression built from atoms, and, or, xor, not, pulses, constants and user expressions gives the truth of its tree over the current values of the parameters, with the index and unit of each destination. "
  "Whoever observes it is called once for every change of a parameter it reads, with the truth at that time, and never after unregistering; a pulse is true from a message to the next update; update pulls the parameters it reads. "
  "Two expressions are equal exactly when they have the same structure and operands; reading back gives the operands and operators that were given; copying and destroying leave no callback behind. "
  "Evaluating, observing and unregistering are safe while other threads set the parameters: no race, no deadlock, no lost notification.",
  ["histories", "inputs", "schedules"], "All expression trees, all operand kinds and value types, all histories of parameter changes, updates and observation; concurrent setters and observers",
  "The expression tests are not in the buildable suite and observe single atoms from one thread.",
  ["src/ossia/editor/expression/*"],
  [("expression_atom callbacks, operator()", "src/ossia/editor/expression/expression_atom.cpp"), ("expression_composition", "src/ossia/editor/expression/expression_composition.cpp"), ("expression_pulse", "src/ossia/editor/expression/expression_pulse.cpp")],
  [("asan", "c16_expression", DF), ("tsan", "c16_expression", DF)],
  "Seeded expression trees evaluated against a model tree after every parameter change, with the log of every notification; concurrent rounds under TSan; a case is a distinct tree and history.")

P("C17", "Launching a flattened or merged state does what launching its messages does",
  "A message sets the value of its parameter, or only the component or list element its index designates, in its unit, and pushes it once; nothing else changes. A state launches its messages in order. "
  "Flattening, filtering or merging any states, in one or several steps, gives a state without nesting, with one entry for each parameter and unit, whose launch leaves every parameter with the same value as launching all the messages one after the other: no component set is lost and none is invented; the ordered form keeps repeated messages in order. "
  "A piecewise message changes only the elements it uses. A state compares equal to its copy, contains what was added and not removed, in order, and prints all of it. A control message reaches its port.",
  ["inputs", "histories"], "All trees of messages with any index, unit, list and vector values; any split between steps; all container histories",
  "The state tests are not in the buildable suite and merge pairs of messages on fixed values.",
  ["src/ossia/editor/state/*", "src/ossia/editor/state/detail/*", "src/ossia/network/value/value_algorithms.hpp"],
  [("vec_merger, state_flatten_visitor_merger", "src/ossia/editor/state/detail/state_flatten_visitor.hpp"), ("message::launch", "src/ossia/editor/state/message.hpp"), ("flat_vec_state::find", "src/ossia/editor/state/flat_vec_state.hpp")],
  [("asan", "c17_state", DF)],
  "Seeded trees of messages launched one by one on one device and flattened on another, comparing every parameter and every push; a case is a distinct tree or message.",
  assumptions=["an element set inside a list element which is not a list makes that element a list"])

P("C18", "A graph tick runs its enabled nodes once, in order, on their data",
  "In each tick, a node executes exactly when it was requested, is not muted, and its strict connections allow it; once for each requested token, all in one go, with these tokens and its discontinuities; then its requests are consumed. "
  "A node executes after the sources of all its cables and dependencies and, in the graphs sorted by address, after the writers of the addresses it reads. "
  "Each inlet sees exactly what its cables carry in order: the data written in this tick, or the previous ones for delayed cables, otherwise the local then global value of its address as its scope allows; each outlet without an executing reader writes its address. Committing sends each written value, or the last one, to its parameter. "
  "A graph with a cycle executes nothing and works again once it is removed. Connecting, disconnecting, adding and removing nodes at any time keep ports and cables consistent and free everything. "
  "The transitive closure and searches it relies on are exact.",
  ["histories", "inputs"], "All graphs, connection kinds, schedulers, logging and bench options, edit histories and tokens",
  "The dataflow tests are not in the buildable suite and use two or three nodes with fixed connections.",
  ["src/ossia/dataflow/graph/*", "src/ossia/dataflow/graph_node.*", "src/ossia/dataflow/graph_edge.hpp", "src/ossia/dataflow/graph_edge_helpers.*", "src/ossia/dataflow/execution_state.*", "src/ossia/dataflow/data_copy.hpp", "src/ossia/dataflow/bench_map.hpp"],
  [("graph_static::state, bfs_update, tc_update", "src/ossia/dataflow/graph/graph_static.hpp"), ("init_node, exec_node, teardown_node, disable_strict_nodes", "src/ossia/dataflow/graph/graph_utils.hpp"), ("graph::tick", "src/ossia/dataflow/graph/graph.hpp"), ("transitive_closure", "src/ossia/dataflow/graph/transitive_closure.hpp")],
  [("asan", "c18_graph", DF)],
  "Seeded edit and tick histories of a graph of recording nodes, with every execution log, inlet content and network write compared with a model; closures compared with Floyd-Warshall; a case is a distinct graph history.",
  assumptions=["explicit dependencies are between nodes which have ports"])

P("C19", "Ports and devices carry values, MIDI and audio intact through a tick",
  "A value port keeps each value written with its date, and when mixing replaces, the last one of each date; copying, moving and mixing ports, and delay lines, lose, invent and reorder nothing: values in order, MIDI messages in order, audio summed sample by sample over all channels. "
  "Values read through a port are converted to its index, unit, type and domain exactly as converting them directly. "
  "Committing a tick sends every value written to a parameter in order, or the last one when merged, in the order of their dates and priorities when asked, and leaves nothing for the next tick. "
  "An event input receives each message of its parameter once, at the next tick, while it is registered; other inputs receive the current value; an input reads what was written in the tick if its scope allows and the device's value otherwise. "
  "Audio parameters give each block of the sound card's buffers to the right channels, sum what is written to the outputs with its gain, and never touch other memory. "
  "Each port gives its exact type, children and cables to visitors.",
  ["inputs", "histories"], "All port contents, channel and sample counts, mixing modes, mappings, devices, registration histories and tick sequences",
  "The dataflow tests are not in the buildable suite; none writes unequal channels, mapped audio, MIDI or events over several ticks.",
  ["src/ossia/dataflow/port.*", "src/ossia/dataflow/data.*", "src/ossia/dataflow/data_copy.hpp", "src/ossia/dataflow/audio_port.hpp", "src/ossia/dataflow/midi_port.*", "src/ossia/dataflow/value_port.hpp", "src/ossia/dataflow/value_vector.hpp", "src/ossia/dataflow/timed_value.hpp", "src/ossia/dataflow/typed_value.hpp", "src/ossia/dataflow/control_inlets.hpp", "src/ossia/dataflow/for_each_port.hpp", "src/ossia/dataflow/fx_node.hpp", "src/ossia/dataflow/execution_state.*", "src/ossia/dataflow/exec_state_facade.hpp", "src/ossia/dataflow/safe_nodes/port.hpp", "src/ossia/dataflow/nodes/media.hpp", "src/ossia/audio/audio_parameter.*", "src/ossia/audio/audio_protocol.*"],
  [("value_port, process_control_value, mix", "src/ossia/dataflow/data.cpp"), ("commit*, find_and_copy, register_port", "src/ossia/dataflow/execution_state.cpp"), ("copy_data, mix", "src/ossia/dataflow/data_copy.hpp"), ("audio_protocol::setup_buffers, advance_tick", "src/ossia/audio/audio_protocol.cpp")],
  [("asan", "c19_port", DF)],
  "Seeded port contents and tick histories with recording devices, an in-process MIDI bus and plain sound card buffers, each compared with a plain model; a case is a distinct content or history.",
  assumptions=["a block of audio is not advanced past its end", "a MIDI channel is 1 to 16"])

P("C20", "OSC carries every value to the right parameters and ignores garbage",
  "A value sent over OSC is one well-formed message to the address of its parameter, with the arguments of its value, whatever the size, up to the size of a datagram; extended types get their own tags. A received message sets exactly the parameters its address or pattern names, each converted to the type of the parameter, once, and does not echo back; nothing else changes. "
  "What one device sends, one with the same tree receives: the value is the same. Bundles are their messages in order, nested ones included. "
  "A message to an unknown address creates a parameter only when learning, of the type it carries, and leads to the same tree whatever the order of repetitions. Critical parameters, filters and rate limits hold. "
  "No datagram, truncated, corrupted or random, crashes, hangs or corrupts a parameter, and the device keeps working after it.",
  ["inputs", "histories"], "All values, types, addresses, patterns, bundles and datagrams",
  "The OSC tests need a network with fixed ports and send a few fixed values; none sends malformed packets.",
  ["src/ossia/network/osc/*", "src/ossia/network/osc/detail/*", "src/ossia/protocols/osc/*"],
  [("osc_value_send_visitor / osc_inbound_visitor", "src/ossia/network/osc/detail/osc.hpp"), ("osc_protocol::observe, push, on_received_message", "src/ossia/network/osc/osc.cpp"), ("osc_factory protocols", "src/ossia/protocols/osc/*")],
  [("asan", "c20_osc", ["base", "net", "value", "state", "osc", "oscfactory"])],
  "Seeded values, addresses, patterns, bundles and mutated datagrams given to the real decoder and taken from the real encoder, compared with an independent strict OSC codec and a model of the tree, in process and over loopback sockets; a case is a distinct packet.",
  assumptions=["a pattern's ? stands for at most one character", "the OSC library under it is a stand-in which checks packets as the real one does"])

P("C21", "Minuit devices describe, mirror and follow each other's tree",
  "Asked about a node, a device answers once with its kind, exactly its children and its attributes; asked about a value or an attribute of a parameter, with exactly that; about anything unknown, with nothing. "
  "Given answers, a device creates the nodes and parameters they announce, asks for each of their children and attributes, the type and dataspace first, and sets each attribute it is told about, whether it is told once or more. "
  "Updating mirrors the tree of the other device: the same nodes, types, values, access, domains, bounding, filters, priorities and units; with packets lost on the way, the same nodes. Values then flow both ways. "
  "A pull is over exactly once its answer or error arrived, even if earlier ones were lost. Changing the address or ports takes effect. "
  "No message, malformed, truncated or with the wrong arguments, crashes the device, changes an attribute it does not name, or keeps it from answering.",
  ["inputs", "histories", "fault_sequences"], "All trees, attributes, questions, answers, losses and datagrams",
  "The Minuit test is not in the buildable suite and only checks that two devices can be created.",
  ["src/ossia/network/minuit/*", "src/ossia/network/minuit/detail/*", "src/ossia/network/osc/detail/receiver.hpp", "src/ossia/network/osc/detail/sender.hpp"],
  [("minuit_behavior", "src/ossia/network/minuit/detail/minuit_parser.hpp"), ("update, pull, get_refresh", "src/ossia/network/minuit/minuit.cpp"), ("receiver", "src/ossia/network/osc/detail/receiver.hpp")],
  [("asan", "c21_minuit", ["base", "net", "value", "state", "osc", "minuit"])],
  "Seeded trees served to a recording peer, seeded answers told to a device, two devices mirroring each other directly and through a relay which loses packets, and mutated datagrams, over loopback sockets; every packet and the resulting tree are compared with a model; a case is a distinct tree, value or packet.",
  assumptions=["vectors arrive as lists and characters as strings", "the OSC library under it is a stand-in which checks packets as the real one does"])

P("C22", "Scenarios execute their events, syncs and intervals at the dates they say",
  "A time sync triggers at most once per run, only when every interval which can still reach it has reached its minimum and its expression is true, a trigger was requested or a maximum is reached, and then it does, on its quantisation date if it has one; it resolves each of its events: those reached whose condition is true happen, once, the others are disposed, once, with all that only they led to. "
  "Intervals start when their start event happens, go on without gap or overlap at their speed or tempo until their end is resolved, never past their maximum, and give their processes exactly that time, between one start and one stop; time left over in a tick goes to what follows, so that rigid scenarios, nested or not, are independent of how time is cut into ticks. "
  "Stopping stops everything and a new run goes as the first; offset and transport put everything where that date says; cycles, re-triggering, loops and editions while running keep all of this, and a clock runs an interval in real time to its end.",
  ["inputs", "histories", "programs"], "All scenario graphs, durations, expressions, ticks and orders of insertion",
  "The scenario tests are not in the buildable suite and run a few fixed graphs.",
  ["src/ossia/editor/scenario/*", "src/ossia/editor/scenario/detail/*", "src/ossia/editor/loop/*", "src/ossia/dataflow/token_request.hpp", "src/ossia/dataflow/nodes/state.hpp"],
  [("scenario::state_impl, process_this", "src/ossia/editor/scenario/detail/scenario_execution.cpp"), ("time_interval::tick_impl", "src/ossia/editor/scenario/time_interval.cpp"), ("scenario offset", "src/ossia/editor/scenario/detail/scenario_offset.cpp"), ("time_sync", "src/ossia/editor/scenario/time_sync.cpp"), ("loop", "src/ossia/editor/loop/loop.cpp")],
  [("asan", "c22_scenario", DF)],
  "Seeded graphs of syncs, events, conditions and flexible, rigid or infinite intervals at several speeds, inserted in any order, are run with seeded ticks, expression changes, requests, offsets, edits and re-runs; each callback is judged when it comes against a shadow state built from the callbacks before it, each tick when it ends, and rigid graphs against the dates computed from their durations; a case is a distinct graph with the sequence of its transitions.",
  assumptions=["intervals without a duration are gone through at some moment between their date and the following ticks", "an event whose last predecessor is disposed in a tick may be looked at in the next one"])

P("C23", "Ready-made process nodes play their content, all of it and only it",
  "Over a timeline cut in any way into ticks, each node leaves in its ports exactly what its content gives for that timeline, at its date: a metronome its beats, a step sequencer its steps, a note its note-on once and its note-off once, a sound its samples at their position, looped, offset, faded, upmixed and placed on its channels; nothing when paused. "
  "A note edited, moved, removed or jumped over leaves nothing sounding and nothing missing, whatever the other notes on its date; when stopped, everything is silent and ready to play again. "
  "Forwarding, merging, gain, sine, gradient, percentage, constant and state nodes compute their function for each of their inputs; processes hand tokens over to their nodes, cut by their loop, and mute or disable them.",
  ["inputs", "histories"], "All contents, cuts into ticks, jumps, edits and options",
  "No test of these nodes is in the buildable suite.",
  ["src/ossia/dataflow/nodes/*", "src/ossia/dataflow/nodes/timestretch/raw_stretcher.hpp", "src/ossia/dataflow/node_process.hpp", "src/ossia/dataflow/node_chain_process.hpp"],
  [("midi::run, transport_impl, remove_note", "src/ossia/dataflow/nodes/midi.hpp"), ("sound_ref::fetch_audio, run", "src/ossia/dataflow/nodes/sound_ref.hpp"), ("sound utilities", "src/ossia/dataflow/nodes/sound.hpp"), ("metronome", "src/ossia/dataflow/nodes/metronome.hpp"), ("step", "src/ossia/dataflow/nodes/step.hpp"), ("node_process", "src/ossia/dataflow/node_process.hpp")],
  [("asan", "c23_nodes", DF)],
  "Seeded contents are played through the real nodes over timelines cut at random into ticks, with jumps, edits, stops and loops, and every message and sample they leave is compared with what the content gives for the whole timeline; a case is a distinct content with its cuts.",
  assumptions=["playing backwards, the rubberband stretcher and gradients with a tween are not decided", "a metronome has a curve"])

P("C24", "An OSCQuery server publishes its whole tree, and a mirror rebuilds exactly it",
  "What a server writes about a tree (the namespace of any node, an attribute query, a change notification, a value on the wire) read back by a client gives the same nodes, types, units, values, ranges, defaults, access, clipping, filtering and descriptive attributes, and nothing else, including after any series of additions, removals, renamings and attribute changes. "
  "Requests arrive decoded, do what they name (listen, ignore, stream, add, remove, rename, HTML, host information) and are refused when they name nothing. "
  "Whatever a peer sends instead, valid JSON or not, is applied or refused: it never crashes, reads out of bounds or leaves a broken tree.",
  ["inputs", "histories"], "All trees, attributes, units, edits, queries and malformed messages",
  "The tests of OSCQuery are not in the buildable suite, and compare a handful of fixed texts.",
  ["src/ossia/network/oscquery/detail/*", "src/ossia/network/http/http_query_parser.hpp"],
  [("json_writer::query_namespace, attributes_changed", "src/ossia/network/oscquery/detail/json_writer_detail.cpp"), ("json_parser", "src/ossia/network/oscquery/detail/json_reader_detail.cpp"), ("value_to_json, json_to_value", "src/ossia/network/oscquery/detail/value_to_json.hpp"), ("osc_writer", "src/ossia/network/oscquery/detail/osc_writer.cpp"), ("get_query_answerer", "src/ossia/network/oscquery/detail/get_query_parser.hpp"), ("json_query_answerer", "src/ossia/network/oscquery/detail/json_query_parser.hpp")],
  [("asan", "c24_oscquery", ["oscquery"] + DF)],
  "Random trees are written with the real writers and read with the real parsers into another device, whose public attributes are compared node by node, also after each of a series of edits applied only through the messages a server sends; values are written as OSC messages, sent over loopback and read back; queries are answered through the real answerers against a recording protocol; mutated messages and raw bytes are received under sanitizers, and the tree is checked after each. A case is a distinct tree or message.",
  assumptions=["a list has an integer first and at least two elements, or is empty: a type tag cannot tell others from scalars and float vectors", "rgba8 components are whole numbers within 0 and 255, which is what is published", "the default value of a list has the shape of its value", "the nesting of received JSON is bounded by the stack"])

P("C25", "A live OSCQuery mirror follows its server: tree, values, answers, connections",
  "A mirror connected to a server has its whole tree, and keeps following it: each node or parameter added, removed, renamed or changed in an attribute is so at every connected mirror, whatever came before, and a mirror that disconnects and comes back catches up. "
  "A value pushed at the server reaches once, in order for critical parameters, each mirror which listens to it and no other; one pushed at a mirror reaches the server's parameter of that address once, and the other mirrors if the server echoes, never its sender. "
  "Nodes keep being followed after they, or a parent, are renamed. Values asked for are those of the server, also concurrently, at unknown addresses or when unanswered; requests to add, remove and rename nodes arrive once and as they were made. "
  "Connections are reported; unreachable or vanished servers and clients, HTTP requests for nothing, and junk sent to any port leave the server answering and following for the others.",
  ["histories", "schedules", "fault_sequences"], "All trees, histories of edits, listening and values, numbers of mirrors, disconnections, and interleavings of pushing threads",
  "The tests of OSCQuery are not in the buildable suite; they wait for fixed times with one client and a fixed tree.",
  ["src/ossia/network/oscquery/oscquery_server.cpp", "src/ossia/network/oscquery/oscquery_mirror.cpp", "src/ossia/network/oscquery/detail/*", "src/ossia/network/sockets/websocket_*.hpp", "src/ossia/network/http/http_client.hpp", "src/ossia/network/generic/generic_node.cpp"],
  [("oscquery_server_protocol", "src/ossia/network/oscquery/oscquery_server.cpp"), ("oscquery_mirror_protocol", "src/ossia/network/oscquery/oscquery_mirror.cpp"), ("oscquery_client", "src/ossia/network/oscquery/detail/oscquery_client.hpp"), ("websocket_client, websocket_server", "src/ossia/network/sockets/websocket_client.hpp"), ("http_get_request", "src/ossia/network/http/http_client.hpp"), ("generic_node_base::set_name", "src/ossia/network/generic/generic_node.cpp")],
  [("asan", "c25_live", ["oscquery"] + DF + ["oscqueryws"]), ("tsan", "c25_live", ["oscquery"] + DF + ["oscqueryws"])],
  "Real servers and mirrors talk over loopback websockets, HTTP and OSC while the harness edits trees, pushes, listens, asks, renames and disconnects at random; the public tree of each mirror is compared with the server's node by node, and callbacks at every end log what arrives. Sections of hostile peers send raw requests and junk to each port. Threads pushing at every end at once are watched by the logs and by ThreadSanitizer. A case is a distinct tree, history step or request.",
  assumptions=["a tree is edited on one thread, which runs the commands of its mirrors, and an edit is followed before the next", "values are of a kind which C24 shows to be representable", "a UDP datagram on an idle loopback is not lost", "the asio variants of the server and the mirror are not decided"])

P("C26", "Presets save the values of a tree and restore exactly those",
  "A preset of a node holds each readable and writable parameter below it other than impulses, once, by its path and with its value; its JSON form lists siblings by decreasing priority. Applied from JSON or text, each parameter it names gets the saved value, pushed once and in the order of the preset, the function given being called after each; "
  "recall-safe nodes (in JSON, all below too), parameters it does not name, and nodes which are gone are left alone. A part of a tree is restored equally at another place. "
  "The structured form written to JSON and read back has the same paths and values; applied, it creates missing nodes with parameters of the values' types, telling the functions whose pattern matches, parents first, or refuses to if the architecture is kept. `x.0` means `x` only where there is no `x.0`. "
  "Malformed files are refused and change nothing; no content crashes, changes the type of a parameter, or is an exception through the C interface, which reports the documented results.",
  ["inputs", "histories"], "All trees, values, attributes, changes between saving and restoring, and contents of files",
  "The preset tests are not in the buildable suite; they load one fixed file.",
  ["src/ossia/preset/preset.cpp", "src/ossia/preset/exception.cpp", "src/ossia/network/value/detail/value_parse_impl.hpp"],
  [("make_preset, make_json_preset", "src/ossia/preset/preset.cpp"), ("apply_json, apply_preset", "src/ossia/preset/preset.cpp"), ("read_json, write_json", "src/ossia/preset/preset.cpp"), ("get_node, to_string", "src/ossia/preset/preset.cpp"), ("ossia_presets_*, ossia_devices_*", "src/ossia/preset/preset.cpp")],
  [("asan", "c26_preset", ["preset", "oscquery", "c"] + [g for g in DF])],
  "Random trees of all types, attributes and numbered names are saved; values are scrambled, nodes removed or added, and the preset applied, while a recording protocol logs each push and the callback each call; the tree is compared with the one saved and, elsewhere, with the one before. Generated JSON arrays are compared with a model of their reading; damaged files are applied to check that nothing changes. The C interface is driven through success and every documented failure. A case is a distinct tree or file.",
  assumptions=["no NaN or infinity, which JSON does not have; characters and float vectors inside a list may come back as strings and lists", "text presets restore floats to their printed precision", "the structured form writes numbered nodes as arrays: complete groups of inner nodes only"])

P("C27", "A MIDI device sends what is written and reports what is received",
  "A value written to a MIDI parameter sends exactly one message, of the type, channel and number its address names, with two values, one or none taken from what is written, converted to integers and kept in 0..127 (0..16383 for pitch bend); incomplete pairs send nothing, the root sends its list of bytes, and an input sends nothing. "
  "A message received on an input is given, once each and with its values, to the observed parameters its type, channel and number name, for the whole channel and then for the number, and to the device; to no other. Pulling gives the last one received. Removed parameters and observers are called no more. Malformed messages are ignored. "
  "While learning, a message only adds the nodes which are missing for it. Registered messages are handed over in order, once. "
  "Nodes exist for channels 1..16, their five parts and numbers 0..127, each once, under its own name; the full tree has them all; any other name is refused. The type of a parameter never changes.",
  ["inputs", "histories"], "All values, messages (bytes), names, and interleavings of creation, observation, removal, learning and port changes",
  "There is no MIDI test in the buildable suite: it needs a MIDI system.",
  ["src/ossia/protocols/midi/midi_protocol.cpp", "src/ossia/protocols/midi/midi_parameter.cpp", "src/ossia/protocols/midi/midi_device.cpp", "src/ossia/protocols/midi/detail/midi_impl.hpp"],
  [("push", "src/ossia/protocols/midi/midi_protocol.cpp"), ("midi_callback, observe, pull", "src/ossia/protocols/midi/midi_protocol.cpp"), ("on_learn", "src/ossia/protocols/midi/midi_protocol.cpp"), ("set_value, push_value", "src/ossia/protocols/midi/midi_parameter.cpp"), ("make_child", "src/ossia/protocols/midi/detail/midi_impl.hpp")],
  [("asan", "c27_midi", DF)],
  "The real protocol runs on an in-process bus which stands for libremidi and records what is sent. Pushes of random values are compared byte for byte with the expected message. Random histories of node creation (any name), observation, removal, reception of valid and arbitrary bytes, pulling, learning, registration and port changes are followed by a model of the tree, of the last values and of the calls due; each received message is checked for the exact calls it causes. Two devices connected through the bus must agree. AddressSanitizer watches all. A case is a distinct history, value or tree.",
  assumptions=["libremidi is replaced by an in-process bus with its message encoding", "pitch bend values are the raw 14 bits 0..16383, as they are sent and received (the domain says -8192..8191)", "messages are received on the thread which changes the tree", "pulling before anything was received gives an unspecified value"])

P("C28", "The C interface does what the objects behind it do",
  "A value made through the C interface has the type and content given; reading it gives exactly that for its type and zero, or nothing, for another; converting it gives what the library's conversion gives. Domains made, changed and read through it are those the library makes of the same values. "
  "Nodes created, found by path or pattern, enumerated and removed, their names, attributes and parameters are those of the tree; an index outside of the children gives none. Each callback on a device or node is called for exactly the events which happen while it is registered. "
  "Each typed write sets the parameter to the value given and sends it once, 'set' without sending; callbacks and queues receive each change once and in order until they are removed; the protocol observes a parameter exactly while someone listens. "
  "Whatever is returned can be freed with its function, leaves inputs unchanged, and null objects, callbacks and outputs are refused without effect: outputs are then empty.",
  ["inputs", "histories"], "All values, domains, paths, patterns, attributes and histories of operations on a device through the C functions",
  "The C interface has no test in the buildable suite, and those there are use it on a few values.",
  ["src/ossia-c/ossia/ossia_value.cpp", "src/ossia-c/ossia/ossia_domain.cpp", "src/ossia-c/ossia/ossia_node.cpp", "src/ossia-c/ossia/ossia_parameter.cpp", "src/ossia-c/ossia/ossia_device.cpp", "src/ossia-c/ossia/ossia_protocol.cpp", "src/ossia-c/ossia/ossia_utils.hpp"],
  [("ossia_value_*", "src/ossia-c/ossia/ossia_value.cpp"), ("ossia_domain_*", "src/ossia-c/ossia/ossia_domain.cpp"), ("ossia_node_*", "src/ossia-c/ossia/ossia_node.cpp"), ("ossia_parameter_*, message queues", "src/ossia-c/ossia/ossia_parameter.cpp"), ("ossia_device_*", "src/ossia-c/ossia/ossia_device.cpp")],
  [("asan", "c28_capi", ["c", "oscqueryws", "osc", "minuit", "oscquery", "curve", "net", "base", "value", "dataflow", "state", "spline", "editor", "midi"])],
  "Random histories of calls of the C functions run on a device whose protocol records what is sent, pulled and observed. After every call the result is compared with the C++ objects behind it and with a model of the values and registrations; events are compared with a C++ observer of the same signals. Everything returned is freed with its function. AddressSanitizer watches ownership and bounds. A case is a distinct history, value or domain.",
  assumptions=["C strings given to the interface are not null except where that means unset", "the logger, another library, is replaced by a function which does nothing", "handles are used from one thread and not after they were freed"])
