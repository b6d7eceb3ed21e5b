"""The properties, in prose; gen.py derives properties.jsonl and MANIFEST.json."""
AI = 'abstract interpretation of the LLVM IR, path-partitioned: intervals, affine terms modulo 2^n, linear inequalities; loops generalised inductively'
AIL = AI + '; list nodes ghosted with their position'
PROPS = [
 dict(id='P01', title='Ring buffer is a bounded FIFO for any capacity and history',
  statement='A ring buffer of any non-zero capacity returns elements in the order they were inserted, refuses an insert when full without disturbing its content, yields zero when empty, and reports exact count, vacancy and capacity. Bulk transfers and culls move exactly the smaller of the requested and the available number of elements. No operation touches memory outside the element storage or the caller\'s buffer.',
  over=['inputs', 'histories'], qtext='every capacity, every read/write position reachable by any sequence of operations, every argument',
  why='The unit test walks one capacity through one fill/drain pattern; wrap positions, capacities and bulk lengths are unbounded.',
  files=['src/RingBuffer.h'], mech=[('insert/get/peek/cull/clear', 'RingBuffer<T>'), ('lazy storage allocation', 'RingBuffer<T>::allocated')],
  state=[('count, read index, write index', 'write = read + count modulo capacity')],
  technique=AI, note='Every exit path of every operation, from an arbitrary invariant state; element size 4, capacity up to 2^28. Induction over operations gives all histories. In addition all states of rings of capacity one to three are explored and compared with a model.'),
 dict(id='P02', title='Linked list operations edit exactly the stated node and keep the count',
  statement='For a list of any length, inserting appends (or prepends) exactly one node, removing by position or from the head unlinks and releases exactly that node, removing by payload releases only nodes carrying that payload, and every other node keeps its order. The reported size always equals the number of nodes. Positions beyond the list yield null and change nothing; an allocation failure is reported and changes nothing.',
  over=['inputs', 'histories', 'fault_sequences'], qtext='every list length and content, every position or payload argument, each allocation succeeding or failing',
  why='Tests build a handful of short lists and never fail an allocation.',
  files=['src/LightLinkedList.h'], mech=[('insert, insertAtHead, remove, get, contains, size', 'LinkedList<T>')],
  state=[('element count', 'number of nodes on the chain')],
  technique=AIL, note='Exact on every operation but paths through doubly nested removal loops, where the release/count clauses are proved and the order clause makes no claim. In addition all states of lists of up to four members are explored and compared with a model.'),
 dict(id='P03', title='Priority queue keeps priority order, FIFO among equals, and its count',
  statement='Inserting places an element behind every element of equal or higher priority and ahead of every lower one; dequeuing yields the first element and its removal releases exactly its node. Rotation moves the head behind the last element; lookup, removal and priority queries by position or payload address exactly the stated element, and the reported size equals the number of nodes. An allocation failure is reported and leaves the queue unchanged.',
  over=['inputs', 'histories', 'fault_sequences'], qtext='every queue length, every assignment of priorities sorted on entry, every argument, each allocation succeeding or failing',
  why='Tests use one small queue with a few priorities; order must hold for every history.',
  files=['src/PriorityQueue.h'], mech=[('insert, dequeue, remove, get, contains, getPriority', 'PriorityQueue<T>')],
  state=[('element count', 'number of nodes'), ('node priority', 'non-increasing along the chain')],
  technique=AIL, note='Induction over operations from any sorted queue. In addition all states of queues of up to three members are explored and compared with a model.'),
 dict(id='P05', title='Integral type conversions succeed exactly when the value fits',
  statement='Setting a value of any integral type (8 to 64 bits, signed or unsigned, and boolean) from a value of any other integral type succeeds exactly when the destination can represent that value, and then the stored value equals the source (booleans store truth). A refused conversion reports failure and leaves the destination as it was. Reading a value out as another type obeys the same rule, and no conversion touches memory beyond the two objects.',
  over=['inputs'], qtext='every ordered pair of integral types, every source value, both directions of the API',
  why='The tests try a few values per pair; the boundary and sign cases of 81 pairs and 2^64 values are not sampled.',
  files=['src/C3PValue/C3PType.cpp', 'src/C3PValue/C3PType.h'], mech=[('C3PTypeConstraint<T>::set_from / get_as', 'src/C3PValue/C3PType.cpp'), ('getTypeHelper', 'src/C3PValue/C3PType.cpp')],
  technique=AI, note='Exact on all paths of all pairs; floating-point destinations are outside the claim.'),
 dict(id='P06', title='Type registry and conversion-risk answers match the types',
  statement='For every type code, the registry\'s answers agree with each other and with the type: known codes have a helper for that very code, fixed-size types report the size of their representation, variable-length types report none, numeric/signed/integral classification is right, and unknown codes are reported unsupported. For every pair of integral types the declared conversion risk is honest: "no risk" means no value of the source can be refused, "impossible" means none is accepted, and the width and sign bits are set exactly when some value is refused for width or for sign.',
  over=['inputs', 'configurations'], qtext='all 256 type codes, every ordered pair of integral types, every source value',
  why='The risk table is consulted by code that never sees the refused values; tests compare a few entries with hand-written expectations.',
  files=['src/C3PValue/C3PType.cpp', 'src/C3PValue/C3PType.h'], mech=[('conversionRisk table', 'C3PType::conversion_risk'), ('type registry', 'getTypeHelper / sizeOfType / typecodeToStr')],
  technique=AI + '; table audit against the abstract outcome sets', note='Constant tables are evaluated completely; outcome sets are exact.'),
 dict(id='P07', title='CBOR encoder emits the shortest valid encoding of every value',
  statement='Every write call of the CBOR encoder emits exactly one well-formed RFC 7049 data item head: the right major type, the shortest form that holds the argument, and the argument in network byte-order, for unsigned and negative integers of every width, lengths of byte and text strings, array and map counts, tags, booleans, null, undefined, special values, floats and doubles. Negative n is encoded as -1-n. Byte and text payloads follow their head unchanged with exactly the announced length; typed arrays carry the RFC 8746 tag of their element type and the byte length count times element size.',
  over=['inputs'], qtext='every argument value of every write call, every string or array length',
  why='Tests encode sampled values; the thresholds of five forms times eight major types are where errors live.',
  files=['src/cbor-cpp/cbor.cpp', 'src/cbor-cpp/cbor.h'], mech=[('encoder::write_type_value and the write_* calls', 'src/cbor-cpp/cbor.cpp')],
  technique=AI, note='Exact on every path of every write call.'),
 dict(id='P08', title='CBOR decoder delivers exactly what each item means, within its input',
  statement='For every initial byte and every argument, the CBOR decoder delivers exactly one event carrying the RFC 7049 meaning of the item: the same integer (negative arguments n as -1-n), tag, array or map count, boolean, null, undefined, special, float or double bit pattern, and the same payload bytes with the same length. Reserved forms are refused with an error. Nothing is delivered for an item whose head or payload is not completely present, nothing outside the input is read, and the next item is decoded from the byte after the previous one.',
  over=['inputs'], qtext='all 256 initial bytes, every argument value, every declared length against every input size up to 2^20, every truncation of a head',
  why='Malformed, truncated and boundary-valued input is the whole point of a decoder and is unbounded.',
  files=['src/cbor-cpp/cbor.cpp', 'src/cbor-cpp/cbor.h'], mech=[('decoder::run', 'src/cbor-cpp/cbor.cpp'), ('input_static', 'src/cbor-cpp/cbor.cpp')],
  technique=AI, note='Input through input_static. Payload bytes are compared for lengths 0-3, 8 and 23, lengths for all sizes; arrays and maps with counts above 2^31 are delivered as the 32-bit pattern.'),
 dict(id='P04', title='StringBuilder content is exactly the byte sequence its API describes',
  statement='Whatever the internal fragmentation, each StringBuilder call leaves in every instance involved exactly the byte sequence (and the fragment boundaries, where they are part of the API) that its documentation gives: appending and prepending buffers, characters and other instances, taking over buffers, whole instances, a length-limited front part or a range of positions, culling from either end, dropping a position, imploding with a delimiter, re-chunking, case conversion. Nothing is lost, duplicated or reordered between donor and recipient. Lengths, counts, byteAt, position, isEmpty, maximum fragment length and copyToBuffer report that content, out-of-range arguments get the documented neutral answer, and only the stated number of bytes is written to a caller\'s buffer.',
  over=['inputs', 'histories'], qtext='every byte content; every layout of up to three fragments (four for position ranges) of one to three bytes; every argument from below zero to beyond the length, and the extreme integers',
  why='The tests use a few strings with fixed fragment layouts; fragment boundaries relative to the argument are where these functions go wrong, and content is arbitrary.',
  files=['src/StringBuilder.cpp', 'src/StringBuilder.h'], mech=[('fragment list', 'StringBuilder::_root, StrLL'), ('split handoff', 'StringBuilder::concatHandoffLimit'), ('collapse', 'StringBuilder::_collapse')],
  state=[('_root', 'list of fragments whose concatenation is the content')], level='other',
  technique=AI + '; exhaustive partition by fragment layout and argument, byte values abstract', note='Bytes are unbounded; layouts are bounded at three or four fragments of up to three bytes, allocations succeed. The numeric formatters are covered elsewhere.'),
 dict(id='P28', title='StringBuilder never leaks, double-frees or overruns, even out of memory',
  statement='For every StringBuilder call, with every allocation it makes succeeding or failing independently: each access lies inside a live allocation or a caller\'s buffer, no null pointer is followed, every allocation is released exactly once by the time the instances are destroyed, and buffers handed over are released by the instance that took them. A failed allocation never destroys content: instances keep what they held, and calls that can report failure do.',
  over=['inputs', 'histories', 'fault_sequences'], qtext='every call, every byte content, every layout of up to three fragments of one to three bytes, every subset of allocations failing',
  why='Allocation failure is never exercised by the tests, and leaks or stray writes are invisible to their assertions.',
  files=['src/StringBuilder.cpp', 'src/StringBuilder.h'], mech=[('fragment allocation', 'StringBuilder::_create_str_ll'), ('fragment release', 'StringBuilder::_destroy_str_ll'), ('collapse', 'StringBuilder::_collapse')],
  state=[('_root', 'owned fragments')], level='other',
  technique=AI + '; allocation typestate; exhaustive partition by fragment layout, argument and allocation outcome', note='Same bounds as P04; replace, split and the text helpers up to four bytes.'),
 dict(id='P29', title='StringBuilder searches, replaces and tokenises as the definition says',
  statement='locate() and contains() report the first match at or after the offset and nothing else; cmpBinString() and the case-insensitive search and comparison agree with the definition over bytes; replace() substitutes every non-overlapping occurrence from left to right, reports how many there were, and leaves the string alone when there is none; split() yields the maximal runs of non-delimiters and their number; deep_copy() copies up to the limit and terminates; hexadecimal tokens read as their value. Fragment boundaries inside a match, overlapping partial matches and bytes above 0x7F make no difference, every call returns, and no byte outside the strings is read.',
  over=['inputs'], qtext='every haystack of up to five arbitrary bytes in every layout of up to three fragments, every needle, replacement or delimiter set of up to three arbitrary bytes, every offset',
  why='Restart after a failed partial match across fragments depends on the equality pattern of the bytes; the tests sample a handful of patterns.',
  files=['src/StringBuilder.cpp', 'src/StringBuilder.h'], mech=[('search', 'StringBuilder::locate'), ('replacement', 'StringBuilder::replace'), ('tokenising', 'StringBuilder::split'), ('text helpers', 'StringBuilder::strcasestr, strcasecmp, deep_copy')],
  level='other',
  technique=AI + '; equality partition of the bytes, exhaustive over layouts', note='Bounded at five bytes; strings for the text helpers up to four arbitrary bytes or five plus three capitals.'),
 dict(id='P20', title='Base64 codecs are exact inverses, refuse bad text and respect the next stage',
  statement='Base64Encoder turns every byte sequence into exactly its RFC 4648 text with padding, and Base64Decoder turns that text back into exactly those bytes, whatever the fragmentation of the buffer pushed. Text with a character outside the alphabet, a length that is not a multiple of four, or misplaced padding is refused with -1, delivers nothing and leaves the source untouched. With an input length set, exactly that many bytes are taken from the front and the rest stays; 1 is returned when everything was taken, 0 when a rest remains, -1 when nothing was taken. bufferAvailable() never promises input whose result exceeds the room of the next stage, and what is delivered always fits.',
  over=['inputs'], qtext='byte sequences up to nine bytes and texts up to three groups with every alphabet range at every position, every invalid character at every position, every non-negative room of the sink, every small input length',
  why='Every byte value at every position and every remainder matters; the tests push a few strings.',
  files=['src/Pipes/BufferAccepter/Base64/C3P_B64.cpp', 'src/Pipes/BufferAccepter/Base64/C3P_B64.h'], mech=[('Base64Encoder::pushBuffer', 'src/Pipes/BufferAccepter/Base64/C3P_B64.cpp'), ('Base64Decoder::pushBuffer', 'src/Pipes/BufferAccepter/Base64/C3P_B64.cpp')],
  level='other', technique=AI + '; partition by alphabet range and fragment layout', note='Trailing bits of a padded group are not constrained; allocations succeed.'),
 dict(id='P30', title='Buffer pipes take a prefix, keep the rest, and say which',
  statement='Every BufferAccepter (StringBuilderSink, BufferAccepterFork, LineEndingCoDec without replacement) takes only a prefix of the buffer pushed to it, never more than bufferAvailable(), leaves the rest in the source unchanged, and returns 1 when all of it was taken, 0 when part was, -1 when nothing was. A sink appends what it took to what it holds. A fork offers each side every byte of the stream exactly once and in order, however differently the sides take over any number of pushes, and releases from the source only what both have taken. A null or empty buffer, or no next stage, is refused without effect.',
  over=['inputs', 'histories'], qtext='pushes of up to four arbitrary bytes in several layouts, every small room and every amount taken, histories of three pushes through a fork with every combination of amounts taken',
  why='The contract is about every combination of back-pressure over time; the tests use sinks that take everything.',
  files=['src/Pipes/BufferAccepter/BufferAccepter.cpp', 'src/Pipes/BufferAccepter/BufferAccepter.h', 'src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp', 'src/Pipes/BufferAccepter/README.md'], mech=[('StringBuilderSink::pushBuffer', 'src/Pipes/BufferAccepter/BufferAccepter.cpp'), ('BufferAccepterFork::pushBuffer', 'src/Pipes/BufferAccepter/BufferAccepter.cpp')],
  state=[('_left_drift, _right_drift', 'bytes the side has taken beyond what was released')],
  level='other', technique=AI + '; exhaustive over small histories', note='Replacement and call-breaking in LineEndingCoDec are unfinished upstream and not claimed; allocations succeed.'),
 dict(id='P09', title='CBOR input and output adapters move exactly the stated bytes',
  statement='A CBOR input yields the bytes of its source front to back: each getter returns the big-endian value of exactly the next bytes (floats and doubles bit for bit), advances by exactly that many, and has_bytes(n) is true exactly when n bytes are left. This does not depend on how a StringBuilder source is fragmented; a source that is kept stays unchanged, a consumed one loses exactly what was read, and a source handed over is released exactly once. A CBOR output appends exactly the bytes written; a bounded one accepts a write exactly when it fits, refuses it otherwise without change, never writes beyond its capacity, and releases only a buffer of its own.',
  over=['inputs', 'histories', 'fault_sequences'], qtext='every byte content; every pair of getters over several fragmentations and source policies; histories of up to three writes against an arbitrary capacity; a write of arbitrary (also negative) length',
  why='Tests read and write a few whole messages; capacity edges and reads across fragments need every combination.',
  files=['src/cbor-cpp/cbor.cpp', 'src/cbor-cpp/cbor.h'], mech=[('input_stringbuilder', 'src/cbor-cpp/cbor.cpp'), ('input_static', 'src/cbor-cpp/cbor.cpp'), ('output_static, output_stringbuilder', 'src/cbor-cpp/cbor.cpp')],
  state=[('_offset', 'bytes read or written so far')],
  level='other', technique=AI + '; exhaustive over small histories', note='Histories of three calls; getters are only called when has_bytes() allows it.'),
 dict(id='P17', title='Sequencer runs each step once, after its dependencies, and reports it',
  statement='On each poll() an AsyncSequencer dispatches exactly the steps that were runnable, incomplete and not running, each once; marks runnable exactly the requested steps whose dependencies have all passed; polls exactly the running steps; and records success, retry or failure per step exactly as the functions report it, touching no other status bit. It returns the number of changes in running, complete and dispatchable status. A request covers exactly the valid steps asked for and everything they transitively depend on, for any dependency graph including a circular one. Resets, queries and the flag containers follow their bitwise definition.',
  over=['inputs', 'histories'], qtext='every status (five arbitrary 32-bit words), every result of every step function, every dependency graph of up to three steps and chains of four, every request mask; every flag value and mask of 8 to 64 bits',
  why='The tests walk a few scripted sequences; the order of completion and the shape of the graph are open.',
  files=['src/AsyncSequencer.cpp', 'src/AsyncSequencer.h', 'src/FlagContainer.h'], mech=[('poll', 'AsyncSequencer::poll'), ('dependency closure', 'AsyncSequencer::_get_dependency_mask'), ('FlagContainer8..64', 'src/FlagContainer.h')],
  state=[('requested, runnable, running, complete, passed', 'one bit per step')],
  level='other', technique=AI + '; bit-level partition by entry status', note='One poll from an arbitrary state gives all histories; lists of two steps (three in the thorough tier). Step flags are single bits.'),
 dict(id='P15', title='Scheduler runs each due schedule once per service, and none that is not due',
  statement='A C3PScheduler holds each schedule at most once, up to its capacity, and says so when it refuses one; an enabled schedule is first due one period after it was added. advanceScheduler() and serviceSchedules() together run each enabled schedule whose due time lies at or before the clock (modulo the 32-bit wrap) exactly once, in the order it was added, and none other; the number run is the number returned. An executed schedule is next due one period later, loses one recurrence unless it recurs forever, and is disabled when it had none left; an execution may change, delay, disable or re-enable its own schedule and that holds. delay() postpones by exactly the time given or one period. willRunAgain(), isEnabled(), count, lookup by index and contains() agree with this state.',
  over=['inputs', 'histories'], qtext='every clock reading, period, recurrence, due time and enablement; every action of a schedule body; histories of add, advance and service with up to three schedules',
  why='Wrap of the microsecond clock and the interplay of recurrence, delay and self-modification are never reached by a test that runs for a second.',
  files=['src/TimerTools/C3PScheduler.cpp', 'src/TimerTools/C3PScheduler.h'], mech=[('execution', 'C3PSchedule::execute'), ('due test', 'C3PScheduler::advanceScheduler'), ('dispatch', 'C3PScheduler::serviceSchedules')],
  state=[('_next_exec, _recurrences, _sch_enabled', 'when and whether a schedule runs again')],
  level='other', technique=AI + '; partition by enablement, clock relation and action', note='At most three schedules; the clock stands still within one call. Profiler statistics are P16. The return value of a lambda schedule is not claimed.'),
 dict(id='P16', title='Timeouts and stopwatches are right across every wrap of the clock',
  statement='delta_assume_wrap(), millis_since(), micros_until() and their siblings are the modular difference for every pair of readings. A MillisTimeout or MicrosTimeout is expired exactly when at least its period has passed since its mark, remaining() is the time left or zero and never wraps however the clock moves between readings, reset() starts a full period from now, trigger() makes it expire at once, and period() is what was set. A StopWatch records for each measurement the modular run time: last, best, worst, total, mean and number of executions follow from the measurements taken, and a stop without a start records nothing.',
  over=['inputs', 'histories'], qtext='every pair of 32-bit clock readings, every period and mark, every prior statistic; the clock advancing by an arbitrary amount between two readings in one call',
  why='The wrap of the clock happens once in 49 days (71 minutes for microseconds) and cannot be waited for in a test.',
  files=['src/TimerTools/TimerTools.h', 'src/TimerTools/StopWatch.cpp', 'src/AbstractPlatform.cpp', 'src/CppPotpourri.h'], mech=[('PeriodicTimeout', 'src/TimerTools/TimerTools.h'), ('StopWatch::markStop', 'src/TimerTools/StopWatch.cpp')],
  state=[('_mark', 'clock reading the timeout runs from')],
  level='other', technique=AI, note='Measurements do not start while the clock reads exactly zero, and statistics do not overflow.'),
 dict(id='P31', title='Time strings, typed helpers, reference counts and the pRNG are exact',
  statement='stringToTimestamp() gives the epoch second of every valid ISO-8601 Zulu time from 1970 through 2099, and 0 for an impossible month, day, hour, minute, second or a year before 1970, reading nothing but its 20 bytes. strict_min, strict_max, strict_abs_delta, strict_range_bind and strict_swap follow their definition for every integer type without conversion. A reference counter counts up to 64000 and refuses beyond, never goes below zero, and a release is true exactly when none is left. C3P_pRNG is the published PCG32 generator, and fill() writes exactly the number of bytes asked for; the typed random functions deliver exactly the bytes they asked for.',
  over=['inputs'], qtext='every date of 130 years with arbitrary day, hour, minute and second; every value of eight integer types; every count; every seed and every fill length up to nine',
  why='Leap years, the ends of each type and lengths that are not multiples of the word are edge cases the tests sample or pass over.',
  files=['src/CppPotpourri.cpp', 'src/CppPotpourri.h'], mech=[('stringToTimestamp', 'src/CppPotpourri.cpp'), ('strict_*', 'src/CppPotpourri.h'), ('C3PRefCounter', 'src/CppPotpourri.h'), ('C3P_pRNG', 'src/CppPotpourri.cpp')],
  level='other', technique=AI + '; partition by year, month and leading digits', note='A day is assumed to exist in its month. Fill lengths up to nine.'),
 dict(id='P32', title='Logger forwards or keeps every line, in order, exactly once',
  statement='What the sink of a C3PLogger has taken, followed by what fetchLog() would return, is at any time exactly the sequence of lines printed: each accepted line as severity text when asked for, message and a newline, none lost, repeated or reordered, however much of each push the sink takes. A line is accepted (0) exactly when its severity is within the verbosity; otherwise -1 is returned and the message stays with the caller. Text is not held back from a sink that takes everything, and fetchLog() yields text once.',
  over=['inputs', 'histories'], qtext='histories of three prints of arbitrary bytes, each with the sink refusing, taking one, two, three or all bytes of each push; every severity against several verbosities',
  why='Back-pressure of a serial sink is never simulated by the tests.',
  files=['src/AbstractPlatform.cpp', 'src/C3PLogger.h'], mech=[('C3PLogger::_store_or_forward', 'src/AbstractPlatform.cpp'), ('C3PLogger::print', 'src/AbstractPlatform.cpp')],
  state=[('_log', 'text not yet taken by the sink')],
  level='other', technique=AI + '; exhaustive over small histories', note='Timestamps and tags (printf-formatted) are not modelled; allocations succeed.'),
 dict(id='P10', title='M2M headers and messages are framed exactly and reversibly',
  statement='A header made for a code, payload length, flags and ID, or given a new payload length, carries the smallest ID and length fields that hold them, the total length of header and payload, the reply bits asked for, and the checksum (flags + length + code + 1, 8 bit); a length it cannot express is refused and changes nothing. isValid() holds exactly when reserved bits are clear, the code is known, both fields are minimal and nonzero where required, the total is at least 4, the checksum matches, and (except for SYNC) an ID is present exactly when a reply is wanted or given. Serialisation writes exactly code, flags, big-endian length and ID, and checksum, and nothing for an invalid header. attempt_header_parse() on any bytes reads none beyond the buffer, leaves it unchanged, and reports too short, malformed, partial, bare or whole with the fields the bytes encode. A message takes exactly its payload from the stream however that is chunked, leaves what follows, and reports completeness as it is; an outbound message or reply is its header followed by its packed payload, rendered the same every time, with the ID of the message it answers, and a payload that cannot be packed is refused.',
  over=['inputs', 'histories'], qtext='every value of code, flags, checksum, length and ID; every flags byte with arbitrary other bytes, up to eleven of them; payloads of up to four bytes in all chunkings of interest',
  why='The space of flag and length combinations and of chunk boundaries is far beyond the examples tested.',
  files=['src/M2MLink/M2MMsgHdr.cpp', 'src/M2MLink/M2MMsg.cpp', 'src/M2MLink/M2MLink.h'], mech=[('header', 'src/M2MLink/M2MMsgHdr.cpp'), ('parser', 'M2MMsg::attempt_header_parse'), ('accumulation', 'M2MMsg::accumulate')],
  state=[('flags', 'reply bits and field sizes'), ('_accumulator', 'payload so far, or the rendered message')],
  level='other', technique=AI + '; partition by flags byte and field sizes', note='KeyValuePair packing and unpacking are modelled as opaque. A random ID is assumed nonzero. Payloads of up to four bytes in messages; header lengths are arbitrary.'),
 dict(id='P33', title='A state machine follows exactly the route planned for it',
  statement='A StateMachine is equivalent to its current state, its prior state and the list of states planned, for every history of operations. Setting a route replaces the plan, appending extends it, prepending puts a state in front, each limited to the free length of the route; a route that contains a state the machine does not know (or one marked invalid) is refused whole, as is an empty one, and leaves the plan as it was. Advancing enters exactly the first planned state: if entry succeeds, it becomes the current state, the old one the prior state, and it leaves the plan; if entry fails, nothing changes. No other operation enters a state. Resetting takes the given state and drops the plan. The questions about current, prior, next and planned states and about stability answer accordingly, and after an advance the machine waits for the longer of its slowdown and the lockout requested, whatever the clock value.',
  over=['inputs', 'histories'], qtext='every history of three operations from a set of seventeen on routes of two and three states; every value of clock, slowdown, lockout and elapsed time',
  why='The drivers built on it run many operations in arbitrary order; tests follow a few routes.',
  files=['src/FiniteStateMachine.h'], mech=[('route', 'StateMachine::_fsm_set_route'), ('advance', 'StateMachine::_fsm_advance')],
  state=[('_waypoints', 'the plan'), ('_fsm_lockout', 'time of next permitted step')],
  level='other', technique=AI, note='The state-entry function is an opaque answer that does not itself change the route. Histories of three operations (four when thorough).'),
 dict(id='P18', title='Enumerated values and their names determine each other',
  statement='Every function that names the values of an enumeration returns a valid string for all 256 codes; every enumerator has its own name, which is the enumerator itself but for case and separators (or a fixed other name), and codes outside the enumeration share one default. Line terminators have their literals and lengths. SI prefixes and units have their standard symbols and names, and a unit string is rendered as the concatenation of its elements, where order-of-magnitude, literal and dimensionality elements consume their argument. An EnumDefList finds exactly its first definition of a value (validity, name, context byte, definition), and by name the first definition that equals the name but for case, else the last catch-all, else nothing (or the last entry, for a value, with the found flag 0); entries marked invalid are neither valid nor exported.',
  over=['inputs'], qtext='all 256 codes of nineteen enumerations; every list of up to two and many of three definitions with all flag combinations; unit strings of up to three elements',
  why='A table with a swapped or missing line passes every test that does not look at that line.',
  files=['src/EnumWrapper.h', 'src/EnumeratedTypeCodes.cpp', 'src/M2MLink/M2MLink.cpp', 'src/BusQueue/BusQueue.cpp'], mech=[('lists', 'EnumDefList'), ('units', 'SIUnitToStr')],
  state=[('LIST_PTR', 'immutable table')],
  level='other', technique=AI + '; enumeration of all codes', note='OPERATOR_EXPONENT and the reserved elements of the unit grammar are not implemented and not claimed.'),
 dict(id='P11', title='M2MLink receives messages however their bytes arrive, and gains sync',
  statement='Whatever chunks the transport divides a stream of well-formed messages into, and however polls and chunks interleave, a live link hands each message exactly once, in order, with its code, flags, ID and payload bytes and with the tag of the session, to the application (application messages) or to the registered service of its slot, and to nobody when there is none; each sync packet that asks for a reply gets exactly one, nothing else is sent, and the link is live and idle afterwards. A pushed buffer is claimed whole. A link that seeks sync skips bytes that mean nothing, wherever they end and however they resemble the beginning of a sync packet, gains sync from the sync packets that follow (in any number, order and chunking, when one is a reply), answers one that asks for a reply, connects, answers the CONNECT that follows in the same bytes, becomes live with a single callback when its CONNECT is answered, and delivers what follows. A live link that meets bytes that are no message delivers what came before, seeks sync actively, and recovers in the same way. No memory is lost or touched out of bounds.',
  over=['inputs', 'schedules', 'histories'], qtext='every division into up to three chunks, and into single bytes, of each of ten kinds of message; every division in two of each pair; divisions of triples; payload bytes symbolic; messages of 250 and 300 bytes; thirteen meaningless prefixes times seven series of sync packets times every cut',
  why='Framing bugs show only when a chunk ends at a particular byte; tests push whole messages.',
  files=['src/M2MLink/M2MLink.cpp', 'src/M2MLink/M2MMsg.cpp', 'src/M2MLink/M2MMsgHdr.cpp'], mech=[('input', 'M2MLink::_process_input_buffer'), ('sync', 'M2MLink::_process_for_sync'), ('delivery', 'M2MLink::_churn_inbound')],
  state=[('_inbound_buf', 'bytes not yet parsed'), ('_working', 'message being received'), ('_waypoints', 'planned states')],
  level='other', technique=AI, note='Payload packing, logging, random numbers and the clock are stand-ins. Messages longer than the MTU are not claimed.'),
 dict(id='P12', title='M2MLink sends what it accepted, and answers what it is asked, exactly once',
  statement='For every history of sending, polling, refusal by the transport, passing time and replies: send() refuses when eight messages wait or the payload cannot be packed, else returns 0 or, for a message that needs a reply, its ID. Every message transmitted is one that was accepted, with its code, ID and payload, also when it is sent again. As long as the transport accepts, each poll transmits the next unsent message; messages of one kind go out in the order of acceptance, those of the link before those of the application, and a refused message keeps its place. A message that needs no reply is transmitted once. One that needs a reply is repeated, unchanged, whenever more than the timeout has passed since its last transmission, at most three times, never after its reply came in and regardless of other traffic; then it is dropped and counted by replyTimeouts(). A reply ends the wait of the message with its ID alone. Each request that a live link receives (sync, connect, log, identity, and application messages that the application answers) is answered exactly once, with its code and ID, in order; replies are not answered unless they ask for it. writeRemoteLog() always consumes its text. With keepalive enabled, a sync packet is sent exactly when nothing was sent for longer than the interval. When everything is sent and answered, the link is idle.',
  over=['histories', 'schedules', 'inputs'], qtext='every history of four operations from ten, and selected histories of up to fifteen, each run to its end with and without replies, at two clock origins (one before the wrap); all pairs of thirteen requests',
  why='Loss, duplication and reordering show only in particular interleavings of polls, refusals and replies.',
  files=['src/M2MLink/M2MLink.cpp', 'src/M2MLink/M2MMsg.cpp', 'src/PriorityQueue.h'], mech=[('sending', 'M2MLink::_churn_outbound'), ('acceptance', 'M2MLink::_send_msg'), ('replies', 'M2MLink::_clear_waiting_send_by_id')],
  state=[('_outbound_messages', 'messages accepted'), ('_retries', 'repetitions left'), ('_ms_io_mark', 'time of the last transmission')],
  level='other', technique=AI, note='How often a repetition that the transport refuses counts is not claimed; nor are answers when eight messages wait.'),
dict(id='P13', title='M2MLink sessions establish, hang up and start again in order',
     statement="Two links that are connected by a transport that loses nothing reach LIVE, whatever the order and frequency of their polls, the division of the bytes, the delay of the transport, and the time by which one of them is late; each application is told of LIVE once. Messages accepted then are delivered exactly once in both directions. After one of them loses sync, both return to LIVE and deliver again. hangup(true) on either or both sides delivers what was accepted before; HANGUP is the last message of each side, each side waits until its own HANGUP is answered, and both become HUNGUP, of which each application is told once. hangup(false) makes a link HUNGUP at its next poll, in every state, with messages waiting, or while a hangup with grace waits for its answer; nothing is transmitted any more. A link that is HUNGUP ignores what it receives, refuses send() and hangup(true), and stays so until reset(), which is refused in every other state; after it the link starts a new session, without the messages, half received bytes or identity of the last. Answers and requests that come again do not change the state. Destroying the links at any moment of this releases every allocation exactly once.",
     over=['histories','schedules'], qtext='sixteen schedules of polls, bytes and delays, by six ways to hang up, each through two sessions; destruction after every round of some; two clock origins, with and without identities',
     why='Establishment and hangup are handshakes of two state machines: what goes wrong depends on how their polls and bytes interleave, and on what an earlier session leaves behind.',
     files=['src/M2MLink/M2MLink.cpp','src/M2MLink/M2MMsg.cpp','src/FiniteStateMachine.h'],
     mech=[('state machine','M2MLink::_fsm_poll'),('entry of states','M2MLink::_fsm_set_position'),('hangup','M2MLink::hangup'),('messages of the protocol','M2MLink::_churn_inbound')],
     state=[('_flags','what the session has exchanged'),('_working','message under construction'),('_id_remote','identity of the counterparty')],
     level='other', technique=AI, note='A transport that loses bytes is covered by P11 (receiving) and P12 (repetition), not by whole sessions; loss of sync while hanging up is not claimed.'),
dict(id='P22', title='Values keep their content, take only what fits, and release what they own',
     statement="A C3PValue or KeyValuePair made from a number of any type gives the same number back as its own type; as another integer type it gives the number when that type can represent it and fails otherwise, leaving the destination untouched. get_as_bool() is true exactly if the number is not zero. set() to a number of any type, or to another value, succeeds exactly if the number fits, and changes nothing when it fails; each success advances trace() by one, and dirty() compares any two traces and catches up. Values that refer to text, bytes, a StringBuilder, a KeyValuePair or a StopWatch give back what they were given or were set to, and release it exactly if reapValue() says so; text given as char* is copied. A key given as char* is copied and the copy released; a key given as const char* is not. Members of a chain are found by position, and by the first equal key, whatever precedes them; count(), collectKeys() and the values agree. drop() removes exactly one member, unlink() cuts the chain at one; what is removed is destroyed exactly when that was asked for and the container may be reaped. Destruction releases the members that may be reaped up to the first that may not, and every allocation exactly once.",
     over=['inputs','histories'], qtext='every number of eleven types, by every destination type; seven kinds of reference by three ways of ownership; every sequence of four keys; chains of up to four members (three kinds of members, by ownership), by every removal and every pair of removals',
     why='Whether a number fits depends on its value, and who owns what is decided by flags that are set and cleared along a history; tests sample both.',
     files=['src/C3PValue/C3PValue.cpp','src/C3PValue/KeyValuePair.cpp','src/C3PValue/C3PType.cpp'],
     mech=[('storage of a number','C3PValue::_type_pun_get'),('assignment','C3PValue::set_from'),('destruction','C3PValue::~C3PValue'),('removal','C3PValue::drop'),('keys','KeyValuePair::_set_new_key')],
     state=[('_target_mem','the number, or what is referred to'),('_mem_flgs','who owns what'),('_next','the chain')],
     level='other', technique=AI, note='Floating point numbers are followed as bit patterns only (no conversions to or from integers); set() over a value that owns what it refers to is not claimed (it loses the old reference); memory for the shim of a BINARY value without content is not claimed.'),
dict(id='P19', title='An element pool gives each element to one holder and returns to capacity',
 statement='An ElementPool of any capacity gives out its own elements first, constructed, each to one holder at a time and in the order they came back; when they are exhausted it gives new elements from the heap as long as fewer than the overdraw limit are outstanding, and nothing otherwise. give() returns 1 and makes the element available again exactly if it lies in the memory of the pool; otherwise it returns 0, releases the element once and counts it. available(), capacity(), overdraws(), overdrawsFreed() and lowWaterMark() are exact after any history. The memory of the pool is released with it exactly if the pool allocated it; memory that was provided is not.',
 over=['inputs', 'histories'], qtext='every history of take(), give() and allocated() on pools of one to three elements (four: thorough), three overdraw limits, memory provided or not, with heap elements adjacent to the memory of the pool',
 why='Who holds what depends on the interleaving of takes and gives; there is no unit test of give-backs of overdrawn elements.',
 files=['src/ElementPool.h', 'src/RingBuffer.h'], mech=[('giving out', 'ElementPool<T>::take'), ('taking back', 'ElementPool<T>::give'), ('which memory', 'ElementPool<T>::inPool')],
 state=[('_list', 'the elements that are not in use'), ('_overdraws, _overdraws_freed', 'outstanding heap elements are their difference')],
 level='other', technique=AI, note='The states are explored by interpreting the IR of each operation from each state reached and comparing with a model; allocations succeed; an element is given back once, by its holder. At most four overdraws per history.'),
dict(id='P21', title='A time series keeps the newest window of samples and reports on exactly those',
 statement='After any history of init(), feedSeries(), bulk updates, windowSize() and purge(), a TimeSeries holds the most recent windowSize() samples at consecutive positions of its memory modulo the window, the next at lastIndex(); totalSamples() counts all since the last purge, windowFull() is true exactly once the window was filled. feedSeries(x) returns -1 if not initialized, 1 if the window is full afterwards and 0 otherwise. value() is the newest sample of a full window, else zero. copyValueRange() copies the requested samples by position, or (not ABS_IDX, no offset) the most recent in the order they were fed, exactly if that many exist and fit the window; otherwise it fails and writes nothing. indexIsWhichSample() is the number of the sample at a position of the memory. minValue(), maxValue() and median() are those of the current content of a full window, whichever were read before, and zero until the window is full. An initialized series is dirty() exactly if samples were accepted since value(), a successful copy, markClean() or a purge. Memory that was provided is never released or resized; memory of its own is released once.',
 over=['inputs', 'histories'], qtext='every history over windows of one to four samples (five: thorough) and values of two or three kinds, with own or provided memory, up to two windows of samples after a purge',
 why='Staleness of cached statistics and the wrap of positions depend on the interleaving of feeding and looking; tests use one window and one order.',
 files=['src/TimeSeries/TimeSeries.h', 'src/TimeSeries/TimeSeries.cpp'], mech=[('accepting a sample', 'TimeSeries<T>::feedSeries'), ('copying out', 'TimeSeries<T>::copyValueRange'), ('which sample', 'TimeSeriesBase::indexIsWhichSample'), ('memory', 'TimeSeries<T>::_reallocate_sample_window')],
 state=[('_sample_idx, _samples_total', 'position of the next sample; count since the purge'), ('_flags', 'which statistics are valid')],
 level='other', technique=AI, note='TimeSeries<int32_t>; states are explored by interpreting the IR of each operation from each state reached and comparing with a model. Statistics that involve floating point (mean, RMS, deviation, SNR) are not claimed; fewer than 65536 samples between two looks at dirty(); allocations succeed; the median of an even window may round either way.'),
dict(id='P14', title='Bus jobs run one at a time in order, are called back once, and are reclaimed',
 statement='Jobs that an I2C or SPI adapter accepts begin one at a time, in the order of their priority (SPI) and of arrival, each when the one before has completed, failed or was purged. Every accepted job is called back exactly once, with the fault it ended with, and then - unless the callback asks for another round (BUSOP_CALLBACK_RECYCLE), which queues it again - reclaimed: preallocated jobs return to the pool wiped, jobs from the heap are released, jobs of the caller are left alone and are idle again; a buffer is freed exactly if the job says so. A job that is queued already is refused without effect; an SPI queue with QUEUE_GUARD that is full calls the job back with QUEUE_FLUSH. purge_current_job(), purge_queued_work() and purge_queued_work_by_dev() call back with QUEUE_FLUSH, and reclaim, exactly the jobs they name, and the latter counts them. new_op() gives jobs that are idle, without fault or buffer, for the opcode and device that were asked for. busIdle(), roomInQueue(), currentJob() and allQueuesClear() agree with that after any history. An I2CDevice queues reads, writes and pings with its address as they were asked for, fails when no job is available, and takes its waiting jobs with it.',
 over=['inputs', 'histories'], qtext='every history of submissions by two devices, of polls under every answer of hardware and callbacks, and of purges, with up to three jobs on adapters of three configurations each; pool sizes one and two',
 why='The fate of a job depends on when hardware, callback and purges interleave; nothing of this is unit tested.',
 files=['src/BusQueue/BusQueue.h', 'src/BusQueue/BusQueue.cpp', 'src/BusQueue/I2CAdapter.cpp', 'src/BusQueue/I2CBusOp.cpp', 'src/BusQueue/I2CDevice.cpp', 'src/BusQueue/SPIAdapter.cpp', 'src/BusQueue/SPIBusOp.cpp'],
 mech=[('advancing jobs', 'I2CAdapter::_bus_poll, SPIAdapter::_bus_poll'), ('callbacks', 'SPIAdapter::service_callback_queue'), ('reclaiming', 'BusAdapter<T>::_reclaim_queue_item'), ('purges', 'BusAdapter<T>::purge_queued_work_by_dev')],
 state=[('work_queue, current_job, callback_queue', 'where a job is'), ('BusOp::_xfer_state, _flags', 'its phase; who frees what')],
 level='other', technique=AI, note='Platform-specific parts (begin, advance, chip select) are stand-ins that obey their interface; UARTAdapter is not claimed; an I2C job that is submitted again while it is being executed is not claimed, nor is destruction of a device whose job is being executed (its callback would dangle).'),
  dict(id='P23', title='Images keep each pixel where it is addressed, and own only their own buffer',
       statement="Within an image's size, in every format with a pixel accessor (24-, 16- and 8-bit grey, 32-, 24-, 16- and 8-bit colour, and monochrome of a height divisible by eight) and every orientation and flip, setPixel(x,y,c) returns true, makes getPixel(x,y) return c cut to the bits of the format (monochrome: all ones when c is not zero), and changes no other pixel; setPixel(x,y,r,g,b) in the colour formats keeps the leading bits of each channel, which getPixelAsFormat() keeps on conversion between the colour formats. Flips and the half-turn mirror the addresses. An address outside the image, or an image without a buffer, is refused: false, no colour (0), nothing written; and no accessor touches memory outside the buffer. bytesUsed() is the bits of all pixels rounded up to bytes. Whatever sequence of setSize(), reallocate(), setBuffer(), setBufferByCopy() and wipe(), with memory running out or not: the image never claims more bytes than its buffer has, a call that reports failure for want of ownership changes nothing, new buffers are zeroed, copies are exact, buffers the image allocated are released exactly once, and the caller's buffer never. serialize() emits size, format, flags and pixels in a ten-byte big-endian header form, and deserialize() rebuilds the image from exactly that, refusing any other length. fill(), lines, rectangles, circles, discs and bitmaps set exactly the pixels of their geometry, clipped to the image.",
       over=['pixel contents and colours', 'addresses and orientations', 'formats', 'histories of buffer calls with allocation failures', 'serialised forms', 'shapes'],
       qtext='for every pixel content and colour; image sizes of a few pixels, histories of up to three calls, all lines of a 6x5 image, circles up to radius 7',
       why='the only Image test checks bytesUsed() after allocation; no test sets or reads a pixel, serialises, or replaces a buffer',
       files=['src/Image/Image.cpp', 'src/Image/Image.h'],
       mech=[('src/Image/Image.cpp', 'getPixel/setPixel/_buffer_allocator/setBufferByCopy/deserialize/drawLine')], state=[('src/Image/Image.h', '_buffer, _buf_fmt, _x, _y, _imgflags, _rotation')],
       level='other', technique=AI,
       note='bounded: small concrete sizes and addresses; pixel contents and colours arbitrary'),
  dict(id='P24', title='UUID text, reading, comparison and generation follow the definition',
       statement="uuid_to_str() writes the 36 characters 8-4-4-4-12 of lower-case hex digits of the sixteen bytes in order and a terminator, and nothing at all into a buffer of fewer than 37; uuid_to_sb() appends the same text. uuid_from_str() takes the hex digits of the text in order, upper or lower case, skips every other character, fills byte after byte from each pair, stops at sixteen and leaves the bytes it has no digits for as they were. uuid_compare() is 0 exactly when all sixteen bytes agree; uuid_copy() copies them all; uuid_gen() takes every byte from the pRNG and marks version 4 and the RFC 4122 variant. None touches memory outside its arguments.",
       over=['identifiers', 'characters at every place of a text', 'text lengths', 'buffer sizes', 'random words'],
       qtext='for every value of each byte or character with the others fixed; comparison, copy and generation for all sixteen bytes together',
       why='the tests convert random identifiers to text and back; no test has text from elsewhere, short or long text or small buffers',
       files=['src/uuid.cpp', 'src/uuid.h'],
       mech=[('src/uuid.cpp', 'uuid_from_str/uuid_to_str/uuid_gen/uuid_compare')], state=[('src/uuid.h', 'UUID.id')],
       level='other', technique=AI,
       note='bounded: one arbitrary byte or character at a time in texts'),
  dict(id='P25', title='The console runs each line once, when it is complete, however it arrives',
       statement="Whatever the chunks a stream of text is pushed to a ParsingConsole in, and for each line terminator (CR, LF, CRLF): each complete line is executed exactly once, in order, and an unfinished line waits for its end. A line is split at spaces after its surrounding blanks are dropped; its first word selects a command by name in any case, or, if it is a single character, by a shortcut in that case; the handler is called with exactly the remaining words when there are at least as many as the command requires, and not otherwise. A backspace at the start of a chunk removes the last character of the unfinished line. Input beyond the maximum length is dropped and what follows is processed. The response holds a line break and what each handler wrote, and names each unknown command, in order; fetchLog() hands it over. The history holds the last lines, up to its depth, that ran (with historyFail() also those that did not), oldest first. Every chunk is claimed, and everything is released by the destructor.",
       over=['streams of lines', 'cuts of a stream into chunks', 'terminators', 'argument characters', 'history depths and maximum lengths'],
       qtext='for each stream of a list, every cut in two and many cuts in three and into single characters, arguments of arbitrary digits',
       why='the only console test checks that a command can be defined and run once; chunked input, several lines, short arguments, backspaces and the history are not tested',
       files=['src/Console/C3PConsole.cpp', 'src/Console/C3PConsole.h'],
       mech=[('src/Console/C3PConsole.cpp', 'pushBuffer/_process_buffer/_line_ending_rxd/_exec_line/_append_to_history')], state=[('src/Console/C3PConsole.h', '_buffer, _response, _history')],
       level='other', technique=AI,
       note='bounded: streams from a list, three commands; argument characters arbitrary'),
]
