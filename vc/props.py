P = []
def prop(**k): P.append(k)
TESTS = 'The unit tests check a few chosen values; '
prop(id='C01', title='Ring buffers are exact bounded FIFOs',
  statement='A ring buffer of capacity N behaves as a FIFO queue holding at most N elements: insertion of one element fails and changes nothing when the ring is full (or its memory cannot be allocated), otherwise appends it at the tail; bulk insertion, retrieval, culling, clearing and peeking by position act on the same logical sequence; count, vacancy and capacity always agree with its contents; contains() and insertIfAbsent() report exactly membership. No call reads or writes outside the ring.',
  over=['inputs', 'histories'], quant='every capacity, every fill state and wrap position, every element value, every count or position argument, for 1-, 4- and 8-byte elements',
  why='Tests fill and drain rings of one capacity; the wrap positions, zero capacity and boundary arguments are unbounded in number.',
  files=['src/RingBuffer.h'], mech=[('RingBuffer', 'src/RingBuffer.h')],
  note='All obligations proved for all inputs on arbitrary-capacity rings. Three instantiations (8-, 32-, 64-bit elements) stand for the template.')
prop(id='C02', title='Linked lists keep inserted elements in order and release what they remove',
  statement='A linked list is an ordered sequence: insert() appends, insertAtHead() prepends, removal by position or of the first element removes exactly that element, removal by value removes every matching element and nothing else, clear() and destruction release everything. Size, membership and access by position agree with that sequence. Every list node is released exactly once when its element leaves, none leaks, and a failed allocation is reported and changes nothing.',
  over=['inputs', 'histories', 'faults'], quant='lists of every length and content, every position argument, every payload, allocation failing or not',
  why='Tests use a few short lists; the order and memory-release guarantees must hold for every arrangement of matching elements and every length.',
  files=['src/LightLinkedList.h'], mech=[('LinkedList', 'src/LightLinkedList.h')],
  note='All obligations proved for lists of every length over an arbitrary well-formed node chain.')
prop(id='C03', title='Priority queues stay ordered, first-in first-out within a priority',
  statement='A priority queue always holds its elements highest priority first, and equal priorities in the order they were inserted. Insertion places an element after every element of at least its priority and returns that position; inserting a payload already present through the if-absent form is refused; removal by position or of the first element removes exactly that element; removal by value removes every match and nothing else; raising or lowering the priority of an element by one moves that element alone to its proper place; recycling demotes the first element to the back. Searches report the first match. Every node is released exactly once, none leaks, and a failed allocation is reported and changes nothing.',
  over=['inputs', 'histories', 'faults'], quant='queues of every length, content and priority pattern (full int range), every argument, allocation failing or not',
  why='No unit test exists for arbitrary sequences; the ordering guarantee must hold after any interleaving of insertions, removals and priority changes.',
  files=['src/PriorityQueue.h'], mech=[('PriorityQueue', 'src/PriorityQueue.h')],
  note='All obligations proved for queues of every length, including the re-ordering loop. Priorities at INT_MAX/INT_MIN are not raised/lowered (precondition).')
prop(id='C05', title='Flag containers change exactly the bits named by the mask',
  statement='For each flag container width, setting, clearing or flipping a mask changes exactly the bits of that mask and no others; value() reports whether any bit of the mask is set and all_set() whether every one is. Construction and reading change nothing else.',
  over=['inputs'], quant='every stored value, every mask, every width (8, 16, 32, 64 bits)',
  why=TESTS + 'the guarantee is over 2^128 combinations of value and mask.',
  files=['src/FlagContainer.h'], mech=[('FlagContainer8/16/32/64', 'src/FlagContainer.h')],
  note='All obligations proved for all inputs. Trusts the clang front end, the VC generator and z3.')
prop(id='C06', title='Elapsed time and timeouts are right across clock wrap-around',
  statement='Elapsed-time and time-until computations give the displacement of the two clock values modulo the clock width. A periodic timeout is expired exactly when its period is zero or at least one period has elapsed since it was last reset, and the time it reports as remaining is consistent with a clock reading made during the call and never exceeds the period. A stopwatch reports last, best, worst, total and mean durations and a count that agree with the sequence of intervals it was given.',
  over=['inputs', 'histories', 'schedules'], quant='every clock value, mark and period, with the clock advancing between any two reads inside a call; every sequence of stopwatch operations',
  why='Tests run on one real clock that never wraps and never advances at an awkward instant; wrap-around takes 49 days or 71 minutes.',
  files=['src/AbstractPlatform.cpp', 'src/AbstractPlatform.h', 'src/TimerTools/TimerTools.h', 'src/TimerTools/StopWatch.cpp'],
  mech=[('delta_assume_wrap', 'src/AbstractPlatform.h'), ('millis_since/until, micros_since/until', 'src/AbstractPlatform.cpp'), ('PeriodicTimeout', 'src/TimerTools/TimerTools.h'), ('StopWatch', 'src/TimerTools/StopWatch.cpp')],
  note='All obligations proved for all inputs. The platform clock is an assumed contract: successive reads are non-decreasing and span less than one wrap.')
prop(id='C07', title='Numeric helpers return the mathematically right value for every argument',
  statement='For every supported argument type, the minimum and maximum helpers return one of their arguments with none smaller (larger); the range-binding helper saturates a value into an ordered range and leaves values inside it alone; the absolute-difference helper returns the true non-negative difference whenever it is representable; and the swap helper exchanges its two arguments.',
  over=['inputs'], quant='every argument value of all ten supported numeric types (floats: all but NaN)',
  why=TESTS + 'boundary values of each type are mostly untested.',
  files=['src/CppPotpourri.h', 'src/CppPotpourri.cpp', 'src/AbstractPlatform.h'], mech=[('strict_min / strict_max / strict_range_bind / strict_abs_delta / strict_swap', 'src/CppPotpourri.h')],
  note='All obligations proved for all inputs (IEEE-754 decided by z3); strict_abs_delta on signed types under the precondition that the difference is representable.')
prop(id='C08', title='UUID text and comparison round-trip every UUID',
  statement='Formatting a UUID gives its canonical lower-case 8-4-4-4-12 text whenever the buffer can hold it and otherwise writes nothing; parsing canonical text of either case gives back exactly those sixteen bytes. Two UUIDs compare equal exactly when all sixteen bytes match, a copy equals its source, and a generated UUID carries the version-4 and variant marks. Parsing arbitrary text of any length writes nothing but the sixteen bytes.',
  over=['inputs'], quant='every UUID, every buffer length, every text, every output of the random source',
  why=TESTS + 'there are 2^128 UUIDs and unboundedly many texts.',
  files=['src/uuid.cpp', 'src/uuid.h'], mech=[('uuid_to_str, uuid_from_str, uuid_compare, uuid_copy, uuid_gen', 'src/uuid.cpp')],
  note='All obligations proved for all inputs. The platform random source is an assumed contract (may return any value).')
prop(id='C19', title='Reference counts saturate instead of wrapping, and report emptiness exactly',
  statement='A reference counter starts at the count it was given, each acquisition below the documented ceiling adds exactly one and reports success, and an acquisition at or above the ceiling is refused and changes nothing. A release subtracts exactly one but never goes below zero, and reports true exactly when the count it leaves is zero. Its internal lock is always free again when a call returns.',
  over=['histories'], quant='every sequence of acquisitions and releases, from every 16-bit count',
  why='Tests walk one short sequence; the saturation edges are not reached.',
  files=['src/CppPotpourri.h'], mech=[('C3PRefCounter', 'src/CppPotpourri.h')],
  note='All obligations proved for all inputs, single-threaded use (the counter is not specified for concurrent callers).')
prop(id='C27', title='Date text converts to the exact Unix time',
  statement='For every valid calendar date and time from 1970 to 2099 written as YYYY-MM-DDThh:mm:ssZ, converting the text gives the exact number of seconds since the epoch (Gregorian leap years, no leap seconds). A month of 0 or above 12, a day above 31, an hour above 23, a minute or second above 59, or a year before 1970 gives 0. The text is not modified and only its first 20 characters are read.',
  over=['inputs'], quant='every date and time in the range, every out-of-range field, arbitrary separator characters',
  why='No test samples more than a few dates; leap-year boundaries and refused fields are where such code fails.',
  files=['src/CppPotpourri.cpp'], mech=[('stringToTimestamp', 'src/CppPotpourri.cpp')],
  note='All obligations proved for all inputs, including that the calendar oracle grows by one from each day to the next. atoi() is an assumed libc contract.')
prop(id='C28', title='The bundled random generator is a reproducible PCG32 stream',
  statement='After being seeded with a non-zero value, the bundled generator produces the same bytes for the same seed: the PCG32 stream for that seed. Filling a buffer of any length writes exactly that many bytes, each being the next byte of the stream, and nothing past the end; typed getters return the next bytes of the same stream.',
  over=['inputs', 'histories'], quant='every seed, generator state and buffer length',
  why='Tests only check that values look random; exactness, tail bytes and buffer bounds must hold for every length and state.',
  files=['src/CppPotpourri.cpp', 'src/CppPotpourri.h'], mech=[('C3P_pRNG::fill/init, C3PRandom::randomUIntN', 'src/CppPotpourri.cpp')],
  note='All obligations proved for every state, seed and length below 2^31.')
prop(id='C29', title='Digest pictures are complete and well-formed for every digest',
  statement='Drawing a digest picture succeeds for every non-empty digest of any length and refuses an empty one, leaving the output alone. The walk never leaves the 17 by 9 board, each step being the clamped diagonal move its two bits name. The picture always has a title line, nine rows of seventeen symbols between bars, and a closing line, with the start cell and the end cell marked.',
  over=['inputs'], quant='every digest content and length',
  why='Tests draw a few short digests; crowded cells and long digests are not reached.',
  files=['src/CppPotpourri.cpp'], mech=[('randomArt, ra_new_position', 'src/CppPotpourri.cpp')],
  note='Shape and bounds proved for all digests; the visit counts inside the picture are compared with a reference model on bounded inputs only.')
prop(id='C09', title='A StringBuilder is one exact byte string, however it is fragmented',
  statement='A StringBuilder holds one sequence of bytes. Appending or prepending bytes, text or another builder adds exactly those bytes at that end (another builder is left unchanged, appending a builder to itself doubles it); handing over another builder, part of it, or a heap buffer moves exactly those bytes and leaves the donor exactly the rest. Culling keeps exactly the named range, copying out writes exactly the bytes that exist in the range asked for, string() gives the whole content contiguously, and length, emptiness, single bytes and case conversion agree with that sequence. Clearing or destroying releases every fragment exactly once, nothing leaks, and where memory is refused the content is left unchanged.',
  over=['inputs', 'histories', 'faults'], quant='every number, length and content of fragments (whichever way each came into being), every argument, memory refused or not',
  why='Tests build a few strings by hand; fragment layouts, split points and refused allocations are unlimited in number.',
  files=['src/StringBuilder.cpp', 'src/StringBuilder.h'], mech=[('StringBuilder', 'src/StringBuilder.cpp'), ('_collapse, _deepcopy_ll_bytes, _create_str_ll, _stack_str_onto_list, _destroy_str_ll', 'src/StringBuilder.cpp')],
  note='All obligations proved over arbitrary fragment chains in the real memory layout; printf-style and number forms, memoryCost and printDebug are covered by the bounded replay only.')
prop(id='C10', title='Searching, replacing, joining and splitting act on the text, not its fragments',
  statement='locate() gives the first offset at or after the start at which the needle stands in the text, and -1 when there is none, wherever fragment borders fall; contains(), cmpBinString() and the case-insensitive static functions agree with that. replace() exchanges the non-overlapping instances from left to right and counts them; implode() joins the fragments with the delimiter between them; split() and chunk() give exactly the tokens and the pieces of the text. position() gives a fragment and its length, drop_position() removes just that one, concatHandoffPositions() moves exactly the named run, and numbers read from a fragment have the value written there. Where memory is refused replace(), implode() and chunk() say so and leave the content as it was, and nothing leaks.',
  over=['inputs', 'faults'], quant='every text, however fragmented, and every needle, delimiter, offset and length, memory refused or not',
  why='Tests search a few short strings; partial matches that overlap and needles that cross several fragment borders are unlimited in number.',
  files=['src/StringBuilder.cpp', 'src/StringBuilder.h'], mech=[('locate, contains, cmpBinString, replace, implode, chunk, split', 'src/StringBuilder.cpp'), ('position, drop_position, concatHandoffPositions, position_as_*', 'src/StringBuilder.cpp')],
  note='locate, contains, cmpBinString, implode, the position functions, concatHandoffPositions and the static text functions proved for all inputs; replace, split, chunk bounded only.')
prop(id='C13', title='M2M message headers round-trip, and messages arrive whole from any fragmentation',
  statement='A message header built for a payload length describes exactly that payload: total length is header plus payload, length and ID fields are sized for their values, the checksum matches, and a length that does not fit is refused without change. Serializing writes exactly the valid headers in the documented layout, and parsing those bytes gives the same header back. Parsing arbitrary bytes never reads outside them, waits exactly while the header is incomplete, and accepts only a matching checksum with a total length covering the header. A message takes exactly its announced payload from the input however it is split, and leaves the rest in order.',
  over=['inputs', 'histories'], quant='every header field value, payload length up to 16 MB, every input byte string, every split of the stream',
  why='Tests use payloads of a few bytes; the size boundaries at 252 and 65531 bytes, and hostile headers, are not reached.',
  files=['src/M2MLink/M2MMsgHdr.cpp', 'src/M2MLink/M2MMsg.cpp', 'src/M2MLink/M2MLink.h', 'src/M2MLink/M2MLink.cpp'], mech=[('M2MMsgHdr', 'src/M2MLink/M2MMsgHdr.cpp'), ('attempt_header_parse, accumulate', 'src/M2MLink/M2MMsg.cpp')],
  note='All obligations proved for all inputs; StringBuilder is used through assumed contracts.')
prop(id='C14', title='Numeric type conversions are exact or refused',
  statement='Converting a value between any two of the eleven numeric types, in either direction of the type-helper API, either succeeds and stores exactly the value (truth value for booleans, nearest value for floating types) or is refused and leaves the destination alone. Between integer types, and to booleans, it succeeds exactly when the value is representable. The conversion-risk table agrees with what reading really does. Vector types convert only from themselves or from a byte buffer long enough to hold them.',
  over=['inputs'], quant='every pair of numeric types and every source value, including NaN and infinities',
  why=TESTS + 'there are 121 type pairs with up to 2^64 values each.',
  files=['src/C3PValue/C3PType.cpp', 'src/C3PValue/C3PType.h'], mech=[('C3PTypeConstraint<T>::set_from / get_as / representable_by', 'src/C3PValue/C3PType.cpp')],
  note='All obligations proved for all inputs; IEEE-754 decided by z3; -fsingle-precision-constant modelled.')
prop(id='C15', title='CBOR encoding and decoding are exact over any fragmentation',
  statement='The CBOR encoder writes exactly the shortest RFC 8949 head and the content of every item it is given. The decoder, over arbitrary bytes delivered whole or in any fragments, reports exactly one event per complete item with the encoded value, never reads outside its input, waits while an item is incomplete, stops at malformed or oversized items, and otherwise always makes progress. Inputs and outputs move multi-byte values in network order, and a fixed-size output never writes past its capacity.',
  over=['inputs', 'histories'], quant='every item value, every input byte string, every split of it into fragments, every output capacity',
  why=TESTS + 'fragment boundaries inside heads and payloads, and hostile length fields, are not reached.',
  files=['src/cbor-cpp/cbor.cpp', 'src/cbor-cpp/cbor.h'], mech=[('cbor::encoder', 'src/cbor-cpp/cbor.cpp'), ('cbor::decoder', 'src/cbor-cpp/cbor.cpp'), ('input_static, input_stringbuilder, output_static, output_stringbuilder', 'src/cbor-cpp/cbor.cpp')],
  note='All obligations proved for all inputs; StringBuilder is used through assumed contracts; the stack is assumed large enough for the largest string of the input.')
prop(id='C24', title='Enum lists answer every look-up by their first matching definition',
  statement='Looking up a value in an enum list of any length gives the text, context byte and definition of the first entry with that value; the value is valid exactly when that entry is not marked invalid, and a value no entry has is never valid. Looking up a text gives the first entry with that text (letter case ignored), otherwise the last catch-all entry, otherwise nothing (or the last entry of the list when only a value can be returned), and says whether the text itself was found. Exporting gives exactly the keys of entries not marked invalid, in list order, and the count agrees.',
  over=['inputs'], quant='every list length and content, every value and text asked for',
  why='Tests use a handful of fixed lists; duplicate values, several catch-alls and invalid-marked duplicates must be decided for every list.',
  files=['src/EnumWrapper.h'], mech=[('EnumDefList<T>', 'src/EnumWrapper.h')],
  note='All obligations proved for lists of every length; StringBuilder is used through assumed contracts; two instantiations (8 and 32 bits).')
prop(id='C11', title='State machines follow exactly the planned route of valid states',
  statement='A state machine keeps its planned states as a queue. Setting or appending a route takes, in order, as many of the given states as fit; if any of those is not a valid state, or there is nothing to take, the call is refused and neither route nor state changes. Appending puts one valid state last, prepending puts one valid state first with the rest following in order, and both are refused when the state is invalid or the route is full. Advancing asks the machine to enter the next planned state and moves there exactly when it accepts, recording the prior state, consuming that waypoint, and applying the slowdown as a lock-out no shorter than what the entry asked for. Reset drops the whole route.',
  over=['inputs', 'histories'], quant='every capacity, route length and content, every state code and argument count, every decision of the machine, every clock value',
  why='Tests drive one small machine along fixed routes; full routes, wrapped rings, invalid codes in the middle and truncation are not reached.',
  files=['src/FiniteStateMachine.h'], mech=[('StateMachine<T>', 'src/FiniteStateMachine.h')],
  note='All obligations proved for all inputs; the ring buffer (C01) and enum list (C24) are used through their contracts; one instantiation.')
prop(id='C12', title='Step sequencers run each requested step once its dependencies have passed',
  statement='Requesting steps adds exactly those steps of the list together with all their direct and indirect dependencies (for acyclic lists of up to 32 steps); flags of no step are ignored. Each poll makes a step runnable exactly when it is requested and all its dependencies have passed, dispatches exactly the steps that were runnable, not running and not complete beforehand, then polls exactly the running ones, each once and in list order. An answer of 1 means dispatched or passed, 0 leaves the step for a later poll, anything else completes it as failed; nothing else changes, and the count of changes is returned. Resets clear exactly the steps named.',
  over=['inputs', 'histories'], quant='every step list, dependency relation, sequencer state and answer of the step functions',
  why='Tests run one checklist; dependency shapes, list orders and failure patterns are unlimited.',
  files=['src/AsyncSequencer.cpp', 'src/AsyncSequencer.h'], mech=[('poll, _check_dependencies, _dispatch_steps, _poll_steps', 'src/AsyncSequencer.cpp'), ('requestSteps, _get_dependency_mask', 'src/AsyncSequencer.cpp')],
  note='All obligations proved for all inputs; each step is assumed to have a flag bit of its own.')
prop(id='C04', title='Element pools hand out every element to at most one holder',
  statement='A pool of N elements starts, on first use, with exactly its N elements free, all constructed in its own or the given memory. Taking hands out a free element of the pool while there is one, and that element is not handed out again until it is given back; giving back makes it free again. When none is free, a fresh heap element is handed out only while fewer than the overdraw limit are outstanding, otherwise nothing; such an element is deleted when given back. Counters and the low-water mark agree, and destruction releases exactly the memory the pool allocated. Failed allocation leaves an unusable but intact pool.',
  over=['inputs', 'histories', 'faults'], quant='every pool size, every set of free elements, every overdraw limit, allocation failing or not',
  why='There is no unit test of element pools at all; double hand-out depends on long take and give histories.',
  files=['src/ElementPool.h'], mech=[('ElementPool<T>', 'src/ElementPool.h')],
  note='All obligations proved for all inputs; the free list (C01) is used through its contract; one instantiation.')
prop(id='C18', title='A time series is an exact sliding window with truthful statistics',
  statement='A time series with a window of N keeps the N most recent samples, oldest overwritten first, and counts all of them. Once the window is full, value() is the newest sample, minimum and maximum are the smallest and largest sample of the window, the mean, RMS, standard deviation and signal-to-noise ratio are computed over the whole window, and the median is the middle sample (or half-way between the two middle ones); no statistic is answered from before the last change of a full window. Range copies give exactly the requested positions or the most recent samples in order, and are refused when so many samples do not exist; every memory position maps to the sample it holds. Purging, resizing and initialising leave an empty zeroed window; without memory the series is unusable and says so; its own memory is released exactly once.',
  over=['inputs', 'histories', 'faults'], quant='every window size, sample history and sample value, every range, allocation failing or not',
  why='Tests fill one window size with one pattern; wrap positions, resizes, extreme samples and failing memory are unlimited.',
  files=['src/TimeSeries/TimeSeries.h', 'src/TimeSeries/TimeSeries.cpp'], mech=[('TimeSeries<T>', 'src/TimeSeries/TimeSeries.h'), ('indexIsWhichSample', 'src/TimeSeries/TimeSeries.cpp')],
  note='All obligations proved for all inputs, median sort included. Floating-point operations are uninterpreted (formulas proved, values checked by bounded replay); three instantiations stand for the template.')
prop(id='C17', title='Base64 codecs convert exactly, refuse cleanly and never lose bytes',
  statement='Encoding gives, for every input, exactly the padded Base64 text of RFC 4648; decoding gives exactly the bytes that text stands for, so decoding what was encoded gives the input back. Text whose length is not a multiple of 4, or with characters or padding out of place, is refused. A codec takes the whole pushed buffer, or with a chunk length set exactly that many bytes from its front, when it offered that much space; otherwise it takes nothing, leaves the buffer as it was and says so. What it passes downstream always fits what the downstream stage said it can take.',
  over=['inputs'], quant='every input content and length, chunk length and amount of space downstream',
  why='Tests push random strings through one pair of codecs with ample space; every byte value at every position, malformed endings and exact capacities are unlimited.',
  files=['src/Pipes/BufferAccepter/Base64/C3P_B64.cpp', 'src/Pipes/BufferAccepter/Base64/C3P_B64.h'], mech=[('Base64Encoder', 'src/Pipes/BufferAccepter/Base64/C3P_B64.cpp'), ('Base64Decoder', 'src/Pipes/BufferAccepter/Base64/C3P_B64.cpp')],
  note='All obligations proved for inputs below 2^28 bytes; StringBuilder is used through assumed contracts (C09); the downstream stage is assumed to take what it offered.')
prop(id='C16', title='The scheduler runs what is due, once, in order, and at the right times',
  statement='Every schedule added while enabled first comes due one period after it was added, and no schedule is listed twice. An advance queues exactly the enabled schedules that have come due (within the last half of the clock range, so also across its wrap), each at most once, in the order in which they were added and behind those already queued; servicing runs each queued schedule exactly once in that order and empties the queue, and runs nothing before the first advance. A run does the work of the schedule once and passes on its answer; after it a schedule with n runs left has n-1, is disabled after its last, and one without limit (-1) goes on; one that will run again is next due one period after the start of this run. delay() puts the next run off as asked and enables the schedule, except during a run.',
  over=['inputs', 'histories', 'schedules'], quant='every number of schedules, in every state, every clock value (also across the wrap), and everything the work of a schedule does to that schedule',
  why='The tests run a few schedules on one real clock; the wrap of the clock, schedules that change themselves, and full lists are not reached.',
  files=['src/TimerTools/C3PScheduler.cpp', 'src/TimerTools/C3PScheduler.h'], mech=[('C3PSchedule::execute/delay', 'src/TimerTools/C3PScheduler.cpp'), ('C3PScheduler::addSchedule/advanceScheduler/serviceSchedules', 'src/TimerTools/C3PScheduler.cpp')],
  note='All obligations proved, the rings by their contracts (C01). removeSchedule() is unimplemented in this tree (always refuses) and not specified.')
prop(id='C20', title='Line codecs pass every byte on and end each line as configured',
  statement='A line-ending codec passes every byte of its input downstream exactly once and in order, with each line terminator replaced by the configured one, whatever the fragmentation of the input.',
  over=['inputs', 'histories'], quant='every input and fragmentation', why='Fragmentation is unlimited.',
  files=['src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp'], mech=[('LineEndingCoDec', 'src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp')], note='',
  na='the component is unfinished in this tree: its call-back path (_push_with_callbreak) is an empty stub and members are left uninitialised, so there is no intended behaviour to state a contract against')
prop(id='C30', title='An M2M session is established, and re-established after loss, in finite time',
  statement='Two live links joined by a transport that eventually delivers bytes come to the established state and return to it after any loss of synchronisation.',
  over=['schedules', 'faults'], quant='every interleaving of polls, deliveries, losses and clock readings', why='Schedules and losses are unlimited.',
  files=['src/M2MLink/M2MLink.cpp'], mech=[('M2MLink::poll', 'src/M2MLink/M2MLink.cpp')], note='',
  na='a liveness property of two communicating machines over time: function contracts state what holds when a call returns, not that a sequence of calls eventually makes progress; the safety part (framing, reassembly) is C13')
prop(id='C32', title='Vector and quaternion algebra is accurate',
  statement='Length, normalisation, rotation and fusion results are within rounding error of the real-valued result.',
  over=['inputs'], quant='every finite input', why='The input space is unlimited.',
  files=['src/Vector3.h', 'src/Quaternion.h'], mech=[('Vector3', 'src/Vector3.h')], note='',
  na='the property is an error bound on compositions of sqrt, division and trigonometric library calls in single precision; the solvers here decide bit-exact IEEE equality of short formulas but not real-valued error bounds, and libm has no contract')
