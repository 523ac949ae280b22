"""The properties: source of properties.jsonl (written by ./gen)."""
P = []

def p(pid, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": ["gel/" + f for f in files],
         "mechanism": [{"name": n, "where": "gel/" + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = list(observe)
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

CB, CBH = "collections/circular_buffer.c", "collections/circular_buffer.h"
p("C01", "Circular buffer is a lossless FIFO",
  "Elements come out of a circular buffer exactly once, in the order they were accepted and with unchanged values, whatever mix of single and bulk operations moves them and wherever the ring wraps. "
  "A bulk write accepts exactly the prefix that fits and returns its length; a bulk read delivers the oldest elements up to the requested count and returns how many; a single write is refused only when full and a single read only when empty. "
  "A reset discards the content and nothing else.",
  ["inputs", "histories"], "every position of the ring, every fill level, every length argument and content, every element type",
  "The tests fill and drain from a few positions; a wrong chunk boundary shows only when head, tail and length meet in one particular way.",
  [CB, CBH], [("chunk computation of bulk writes", CB + ":circular_buf_puts"), ("chunk computation of bulk reads", CB + ":_circular_buf_get"), ("index arithmetic modulo the size", CB + ":advance_pointer/retreat_pointer")],
  [("head/tail", "next slot to write / to read; equal means empty")], ["return values of putc/puts/getc/gets", "elements read"])
p("C02", "Circular buffer accounting matches its content",
  "The reported size is always the number of elements accepted and not yet read, empty holds exactly at zero, full exactly when size equals capacity, and capacity is one less than the storage size. "
  "This stays true through every operation, including a full buffer that wraps.",
  ["inputs", "histories"], "every ring position and fill level, before and after every operation",
  "Size in a wrapped or full ring is a case split on index order; the tests look at a handful of fills.",
  [CB, CBH], [("size from the two indices", CB + ":circular_buf_size"), ("full/empty tests", CB + ":is_circular_buf_full/is_circular_buf_empty")], (), ["circular_buf_size, is_circular_buf_full, is_circular_buf_empty, circular_buf_capacity"])
p("C03", "Circular buffer operations stay inside their memory",
  "No operation reads or writes outside the storage and the caller's array, bulk reads write no more than the returned count, producers never overwrite an element still queued, and consumers never write the storage. "
  "Operations on a missing buffer fail without any access, and initialisation refuses missing or zero-sized storage.",
  ["inputs", "histories"], "every ring position, fill, length (up to the largest int) and content",
  "An access one past the storage or over a queued element is silent for most values; tests run without sanitizers.",
  [CB, CBH], [("clipping of chunks", CB + ":circular_buf_puts, _circular_buf_get"), ("argument guards", CB)], (), ["memory around and inside the storage"])
p("C04", "Circular buffer is safe for one producer and one consumer",
  "With one context only producing (single or bulk write, full, size) and another only consuming (single or bulk read, peek, drop, empty, size), interrupting each other anywhere, every accepted element is read exactly once, in order and with its value, and neither side blocks the other. "
  "A bulk write never reports more than it stored, a bulk read never delivers an element that was not fully stored, and space freed meanwhile is never mistaken for more room than there is.",
  ["schedules"], "every point of shared access of one side's operation at which the other side may run any of its operations to completion",
  "The tests are single threaded; the guarantee is about every interleaving.",
  [CB, CBH], [("producer publishes head after the data", CB + ":circular_buf_putc/circular_buf_puts"), ("consumer publishes tail after reading", CB + ":_circular_buf_get/circular_buf_getc")],
  [("head", "written by the producer only"), ("tail", "written by the consumer only")], ["elements read by the consumer"])
p("C05", "Peek shows and drop discards exactly the oldest elements",
  "Peeking any number of elements delivers exactly those a bulk read would deliver, in order and with the same count, and leaves the content and accounting unchanged. Dropping n discards exactly the n oldest elements, or all when there are fewer, and returns how many.",
  ["inputs", "histories"], "every ring position, fill and length", "Peek across the wrap uses its own index walk that no test covers at each boundary.",
  [CB, CBH], [("non-consuming walk", CB + ":_circular_buf_get")], (), ["peeked elements, later reads"])

Q = "collections/queue.h"
p("Q01", "Macro queue is a FIFO for any item type across index wrap-around",
  "A generated queue of power-of-two size returns items in insertion order, bit for bit as inserted, refuses insertion exactly when it holds its capacity and extraction exactly when empty, and a refused operation changes nothing. "
  "Dropping behaves as an extraction whose item is thrown away. This holds over any number of operations, also when the internal indices overflow.",
  ["inputs", "histories"], "every index value (all 65536, including the overflow), every fill and content, several item types and capacities",
  "The overflow of the 16-bit indices comes after 65536 operations and concerns every fill level; a test walks one path.",
  [Q], [("free running indices masked by capacity - 1", Q + ":QUEUE_DEFINITION enqueue/dequeue")], [("read_idx/write_idx", "free running 16 bit counters")], ["enqueue/dequeue results and items"])
p("Q02", "Macro queue count, empty and full agree with its content",
  "The count is always the number of items inserted and not yet extracted or dropped, empty holds exactly when it is zero and full exactly when it is the capacity, for every history, also across index overflow, and initialisation always yields an empty queue.",
  ["inputs", "histories"], "every index value and fill", "The subtraction of wrapped indices goes through integer promotion; only particular index pairs show an error.",
  [Q], [("count, is_empty, is_full", Q + ":QUEUE_DEFINITION")], (), ["count/is_empty/is_full"])
S = "collections/stack.h"
p("S01", "Macro stack is last-in first-out and peek sees the top",
  "A generated stack returns items in reverse order of insertion, bit for bit; peek shows the item the next pop would return and changes nothing; push is refused exactly when full and pop or peek exactly when empty, and a refused operation changes neither the stack nor the output. "
  "The empty and full predicates agree with the content.",
  ["inputs", "histories"], "every fill level, content and short operation sequence, several item types and capacities",
  "There are no stack tests in the stable suite.", [S], [("index of the top", S + ":STACK_DEFINITION push/pop/peek")], [("idx", "number of items")], ["pop/peek results"])
p("S02", "Removing from the bottom of the stack shifts the rest in order",
  "Dequeue removes exactly the oldest item of a stack and keeps all others in order, at every fill from empty to full, touching nothing outside the items.",
  ["inputs"], "every fill level and content", "Not tested at all; off-by-one moves hide at full or single-item fills.",
  [S], [("shift loop", S + ":STACK_DEFINITION dequeue")], (), ["later pops"])
L = "collections/listx.h"
p("L01", "Intrusive list keeps its ring and order under insert and delete",
  "After any sequence of head insertions, tail insertions and deletions, forward traversal meets exactly the elements currently linked, in the specified order, backward traversal meets them in reverse, and the links of neighbours always agree. "
  "Emptiness, last-element, successor and predecessor queries and container lookup agree with that content.",
  ["histories"], "every sequence of operations up to the bound over distinct elements", "Not covered by the stable tests; a wrong link shows only in a later backward walk or deletion.",
  [L], [("__list_add/__list_del", L), ("iteration macros", L)], (), ["traversals in both directions"])
M = "data_structures/maybe.h"
p("M01", "Maybe values obey their construction, default, map and bind laws",
  "A constructed value is present and a nothing is absent; taking a value with default yields the value when present and the default otherwise; map and bind apply the function exactly once to a present value and never to an absent one, and an absent value stays absent. "
  "Mapping and binding agree with direct application for every value and function.",
  ["inputs"], "every value, default and function result, several types", "Tests try one integer.", [M], [("generated functions", M + ":MAYBE_DEFINITION")], (), ["returned maybe"])
U, UH = "data_structures/struct_update.c", "data_structures/struct_update.h"
p("U01", "A struct update changes exactly the recorded bytes",
  "Applying a recorded update writes exactly the value recorded at creation into exactly the bytes of the chosen field or array portion of the destination and changes no other byte, however often and to however many instances it is applied. "
  "The recorded value does not follow later changes of the data it was created from.",
  ["inputs"], "every offset, size and content within an object, every destination content", "One test updates one field; an overlong copy is invisible there.",
  [U, UH], [("owned copy", U + ":struct_update_from_data"), ("byte copy at offset", U + ":struct_update_apply"), ("field/array macros", UH)], (), ["destination bytes"])
W, WH = "data_structures/watcher.c", "data_structures/watcher.h"
p("W01", "An undelayed watcher reports every change once, at the next processing",
  "For entries without delay, processing calls the entry's callback exactly once, with its memory and user data, exactly when any watched byte differs from its content at the previous processing, and never otherwise; entries do not influence each other. "
  "Processing reports whether any entry changed.",
  ["inputs", "histories"], "every watched content, several processing rounds and entries", "Tests flip one variable; a comparison that misses some bytes or entries passes.",
  [W, WH], [("compare with saved copy, then save", W + ":watcher_process_changes")], [("old", "content at the last processing")], ["callback invocations"])
p("W02", "A delayed watcher fires once, when the value has been stable for its delay",
  "For an entry with a delay, each observed change (re)starts the delay at the time it is processed and the callback runs exactly once, at the first processing without a further change at which the delay has elapsed since the last change. "
  "It never fires early, twice, or without a preceding change, also across timestamp wrap-around.",
  ["inputs", "histories"], "every sequence of contents and timestamps up to the bound, every delay", "The test walks one schedule of times.",
  [W, WH], [("moved flag and timestamp", W + ":watcher_process_changes"), ("expiry test", "timer/timecheck.h:is_loosely_expired")], [("moved/timestamp", "a change waits for its delay")], ["callback invocations"])
p("W03", "Checking changes is pure; clearing forgets changes already made",
  "Checking for changes reports exactly whether some watched byte differs from its saved content, and changes nothing. After initialisation or clearing, no change made before it is ever reported, whether seen or pending, while later changes are; explicit triggering calls each callback once regardless of content.",
  ["inputs", "histories"], "every content, entry state and time", "Clearing interacts with pending delays in ways the tests never combine.",
  [W, WH], [("watcher_clear_changes", W), ("watcher_check_for_changes", W), ("watcher_trigger_all", W)], (), ["callback invocations, return values"])
D = "debounce/debounce.c"
p("D01", "Debounce accepts a change only after d+1 consecutive differing samples",
  "With debounce d, the debounced value of an input changes exactly at the (d+1)-th consecutive sample that differs from it, and never sooner or later; any sample equal to it restarts the count. "
  "The returned value is non-zero exactly when some input changed.",
  ["inputs", "histories"], "every sample sequence up to the bound and every debounce value in the bound, every input line", "Tests use two debounce values and one bit pattern.",
  [D, "debounce/debounce.h"], [("per line counter", D + ":debounce_filter_single")], [("debounce_count", "samples still to see"), ("old_input/buffered", "accepted value")], ["debounce_value, debounce_read, return value"])
p("D02", "Debounced inputs are independent and setting the filter is a clean start",
  "The debounced value of one input depends only on the samples of that input, in all bit positions, also when single inputs are fed separately, and reading bit i agrees with the whole value. "
  "Setting the filter makes the value exactly the given one and forgets partial counts; initialising is setting to zero; reads out of range are refused.",
  ["inputs", "histories"], "all input lines, every state", "Cross-talk between bit 31 and the others, or leftover counts, need specific combinations.",
  [D, "debounce/debounce.h"], [("SET_NTH bit update", D), ("debounce_filter_set", D)], (), ["debounce_value, debounce_read"])
PC = "debounce/pulsecounter.c"
p("P01", "Pulse counter counts each debounced pulse of its polarity exactly once",
  "A counter increases by one exactly when its debounced level makes the edge that ends a pulse of the configured polarity (falling for high pulses, rising for low pulses), where a level is accepted after d+1 consecutive differing samples. "
  "Other edges, bounces shorter than that and other inputs never change it, and the return value tells whether any counter increased.",
  ["inputs", "histories"], "every sample sequence up to the bound, both polarities, every input, debounce values in the bound", "Tests feed regular pulses.",
  [PC, "debounce/pulsecounter.h"], [("edge detection", PC + ":pulse_filter")], [("filters", "samples still to see"), ("count", "pulses")], ["pulse_count, pulse_level, return value"])
p("P02", "Pulse counter starts clean and clears one counter at a time",
  "Initialisation, from any memory content, sets the given levels and zero counts with no partial debounce state; clearing a counter zeroes that one and nothing else; reading is pure and out-of-range indices are refused without any access.",
  ["inputs"], "every previous memory content, every index including negative and too large", "Tests start from zeroed memory.",
  [PC, "debounce/pulsecounter.h"], [("pulse_filter_init", PC), ("pulse_clear/pulse_count bounds", "debounce/pulsecounter.h")], (), ["pulse_count, pulse_level"])
K = "keypad/keypad.c"
p("K01", "Keypad event stream of a key follows press, hold and release timing",
  "For a key that is held and released, the keypad reports one press, at most one click strictly after the click time, at most one long click strictly after the long click time, then long-press repeats (or pressing repeats before it) strictly more than a period apart, and one release; nothing is reported before its time has passed. "
  "Every reported sequence per key is a press, then its hold events in that order, then a release, also across timestamp wrap-around; the release after hold events comes once the key was up for more than the click time, and a key pressed again before that starts over with a press. One key is followed at a time, from its press to its release.",
  ["inputs", "histories"], "every sequence of key states and timestamps up to the bound, every threshold setting with click < long click", "Tests follow one schedule with fixed thresholds.",
  [K, "keypad/keypad.h"], [("per key state machine", K + ":keypad_routine")], [("time_state/time_period/lastevent", "where the key is in its life")], ["returned event and code"])
p("K02", "Keypad reports the right key, and a reset makes every key start anew",
  "With keys of distinct values, a press is reported with the code of the key configured for the scanned value, and each reported event belongs to the key whose state caused it; a value that matches no key never reports a press. "
  "After a reset every key counts as not pressed and nothing is reported for a key until it is scanned, which is then a new press. A key's reported state is pressed only if the last scan showed it, and a followed key that was scanned is pressed.",
  ["inputs", "histories"], "every table of distinct keys up to the bound, every scan value", "Tests use a fixed table.",
  [K, "keypad/keypad.h"], [("scan loop", K + ":keypad_routine"), ("reset", K + ":keypad_reset_keys")], (), ["returned code"])
E = "circular_event_log/circular_event_log.c"
p("E01", "Event log returns exactly the requested window of latest events",
  "After any number of saved events, loading n events skipping the latest j returns exactly the (at most n) consecutive events that precede the latest j, oldest first, with their count, whatever the wrap position; the total is the number saved, capped at capacity. "
  "No access outside the storage or the caller's buffer is ever requested.",
  ["inputs", "histories"], "every capacity up to the bound, every number of saved events, every n and j (all of size_t)", "Tests check a few windows.",
  [E], [("window start", E + ":nth_last_event"), ("two reads at the wrap", E + ":circular_event_log_load_last_events")], [("next_position/full_circle", "where the next event goes")], ["requests to the storage callbacks, returned events"])
p("E02", "Event log stays consistent when the storage fails",
  "A failed save leaves the log as if it had not been tried, and its error reaches the caller; a failed read is reported and never passed off as a complete result. Afterwards all windows are again exactly the successfully saved events.",
  ["fault_sequences", "histories"], "every placement of failures in a short sequence of saves and loads", "Tests never fail the storage.",
  [E], [("state advances after success only", E + ":circular_event_log_new_event")], (), ["return values, later windows"])
X16, X32 = "crc/crc16-ccitt.c", "crc/crc32.c"
p("X01", "crc16 is the CCITT polynomial CRC",
  "The 16-bit checksum of any block and any initial value equals the remainder computed bit by bit, most significant bit first, with the polynomial x^16+x^12+x^5+1, no reflection and no final inversion; an empty block returns the initial value.",
  ["inputs"], "every block up to the bound and every initial value", "A wrong table entry affects one byte value in 256; no test exists.",
  [X16], [("256 entry table", X16), ("byte step", X16 + ":crc16_ccitt")], (), ["return value"])
p("X02", "crc32 is the 0x04c11db7 polynomial CRC",
  "The 32-bit checksum of any block and any initial value equals the remainder computed bit by bit, most significant bit first, with polynomial 0x04c11db7, no reflection and no final inversion; an empty block returns the initial value.",
  ["inputs"], "every block up to the bound and every initial value", "A wrong table entry affects one byte value in 256; no test exists.",
  [X32], [("256 entry table", X32), ("byte step", X32 + ":crc32")], (), ["return value"])
p("X03", "Checksums can be computed in segments",
  "For both checksums, feeding a block in two or more pieces, each starting from the checksum of the pieces before, gives the checksum of the whole block, for every split, and the block is only read.",
  ["inputs"], "every block and split up to the bound", "No test exists.", [X16, X32], [("initial value parameter", X16 + ", " + X32)], (), ["return value"])
p("X04", "Checksums detect every short burst error",
  "Changing any burst of at most 16 consecutive bits (for the 16-bit checksum) or 32 consecutive bits (for the 32-bit one) of a block changes its checksum, and so does changing any one or two bits within the bound.",
  ["inputs"], "every block up to the bound and every such change", "Detection is a claim over all pairs of blocks.",
  [X16, X32], [("table-driven division", X16 + ", " + X32)], (), ["return value"])
R, RH = "parameter/parameter.c", "parameter/parameter.h"
TY = "every parameter type"
p("R01", "Changing a parameter keeps it in range and wraps at the ends",
  "Adding any multiple of the step to a parameter stores exactly the mathematical result when it lies within the effective limits; otherwise an increment stores the lower limit and a decrement the upper limit. "
  "No overflow of the type can produce a value outside the limits, dynamic limits take precedence over fixed ones, and a missing handle is refused.",
  ["inputs"], TY + ", every value, limit, step and multiplier", "Overflow needs values near the end of the type; tests use small ones.",
  [R, RH], [("operator macros", R + ":parameter_operator")], (), ["stored value"])
p("R02", "Range checking resets exactly the out-of-range parameters and counts them",
  "Checking ranges sets every parameter outside its effective limits (including a floating point NaN) to its default, leaves all others bit for bit, and returns how many it reset, whatever their access level.",
  ["inputs"], TY + ", every value and limit, several parameters", "Tests check a few integers.",
  [R], [("CHECK_RANGE", R + ":parameter_check_ranges")], (), ["stored values, return value"])
p("R03", "Resetting restores every default",
  "Resetting to defaults stores its default into every parameter of the table, of every type and access level, and changes nothing else.",
  ["inputs"], TY + ", every content", "Tests use one or two types.", [R], [("SET_DEFAULT", R + ":parameter_reset_to_defaults")], (), ["stored values"])
p("R04", "Parameter count and lookup agree on what an access level can see",
  "A parameter is visible when its access level is zero or shares a bit with the given level; the count is the number of visible parameters and the n-th lookup returns the n-th visible one in table order, and nothing when there are not that many. "
  "Runtime callbacks are run with their parameter and argument before visibility is decided.",
  ["inputs"], "every table up to the bound, every access level and index", "Tests use one table.", [R], [("visibility test", R + ":parameter_get_handle, parameter_get_count")], (), ["count, handle"])
p("R05", "Converting a parameter preserves its value",
  "Conversion to a long yields exactly the stored integer for every value a long can represent, with its sign; conversion to an index yields it for every non-negative value; conversion to a boolean is true exactly when an integer value is not zero. A missing handle converts to zero.",
  ["inputs"], TY + " and every value", "Sign extension errors show on negative values of one type only.", [R], [("parameter_to_long/index/bool", R)], (), ["return value"])
p("R06", "Cloning and copying parameters transfer exactly one value",
  "A clone has all attributes of its source but its own storage, which receives exactly the source's value; copying transfers exactly the value's bytes between parameters of the same type and refuses different types or missing handles, touching no byte beyond the value.",
  ["inputs"], TY + " and every value", "A copy of the wrong width shows only for large types or in neighbouring bytes.", [R], [("parameter_clone, parameter_copy_value, parameter_clone_with_buffer", R)], (), ["destination bytes"])
p("R07", "The number of values of a parameter is the size of its range",
  "The reported number of values is the upper limit minus the lower limit plus one, computed without overflow for every integer type and effective limits whose count is representable, and zero for a missing handle.",
  ["inputs"], TY + ", every pair of limits", "Overflow needs wide ranges.", [R], [("GET_RANGE", R + ":parameter_get_total_values")], (), ["return value"])
p("R08", "Parameter constructors record type, limits, default and step exactly",
  "A parameter built with any of the constructor macros has the type of its storage and exactly the given limits, default and step for every value representable in that type, and the given dynamic limits, level, data and callback.",
  ["inputs"], TY + ", every value", "Casting macros differ per type; tests use small constants.", [RH], [("PARAMETER macros", RH)], (), ["handle fields through the operations"])
I = "pid/pid.c"
p("I01", "PID output is the sum of its terms; the proportional one follows the error",
  "The computed output is the sum of the proportional, integral and derivative terms; the proportional term is the gain times setpoint minus last input; the current error is setpoint minus last input. Computing changes no state.",
  ["inputs", "histories"], "every input, setpoint and gain in the bound", "Tests check single numbers.", [I], [("pid_compute", I), ("pid_compute_p", I)], (), ["outputs"])
p("I02", "PID integral covers exactly the latest window of errors",
  "The integral term is the gain times the sum of the errors of the latest inputs, as many as the history holds, each input contributing its error at the time it was added, for any number of inputs, until the integral is cleared, after which only later inputs count.",
  ["inputs", "histories"], "every sequence of inputs up to more than the window, every setpoint change", "A slot left over from a previous round shows only after the window is full.",
  [I], [("ring of errors", I + ":pid_add_input"), ("pid_compute_i", I)], [("history/index", "ring of the latest errors")], ["integral term"])
p("I03", "PID derivative compares with the error the configured distance ago",
  "The derivative term is the gain times the current error minus the error a fixed number of inputs ago, or minus the oldest known error while fewer inputs were seen, and zero after a single input; each past error is taken with the setpoint in force when the next input came.",
  ["inputs", "histories"], "every sequence of inputs up to more than the window", "The ring index matters only after it wraps.", [I], [("pid_compute_d", I)], [("derivative_history", "ring of earlier errors")], ["derivative term"])
p("I04", "PID thresholds and auto-clear affect only what they say",
  "With a threshold enabled for its sign, errors not smaller in magnitude than it contribute zero to the integral, all others contribute fully; with the derivative threshold enabled the derivative is zero exactly when the error's magnitude exceeds it. "
  "With auto-clear the integral restarts exactly when the error changes sign, zero not counting as a change; without it the integral is kept.",
  ["inputs", "histories"], "every input sequence up to the bound, every threshold and flag", "Sign changes through zero are combinations no test makes.", [I], [("threshold and sign logic", I + ":pid_add_input")], [("sign", "sign of the last non-zero error")], ["integral and derivative terms"])
H, HH = "scheduler/scheduler.c", "scheduler/scheduler.h"
p("H01", "A schedule entry is active exactly on its days and times",
  "An entry is active exactly when it is enabled, includes the day, and the time of day lies in its interval with start included and end excluded; an interval that runs past midnight is active from its start to midnight and from midnight to its remainder on its days. "
  "Activity of the scheduler, its map of active entries and the remaining times all agree with this.",
  ["inputs"], "every entry, every day and second", "Boundary seconds and midnight need specific times.", [H, HH], [("is_entry_active", H)], (), ["active map, is_active"])
p("H02", "Among active entries the scheduler picks the shortest weekly one",
  "The selected entry is active, and no other active entry has a smaller weekly timespan (duration times number of days), nor the same timespan and a larger value; among complete ties the first wins. No entry is selected exactly when none is active, and the current value is the selected entry's value.",
  ["inputs"], "every set of entries and every time", "Ties and extreme values need specific combinations.", [H], [("scheduler_get_active_entry_number", H)], (), ["selected index, current value"])
p("H03", "Remaining duration leads exactly to the end of the entry",
  "The remaining duration of an active entry is the number of seconds from now until its end, also past midnight, and zero for inactive, disabled or missing entries; the scheduler's current remaining duration is that of the selected entry.",
  ["inputs"], "every entry and time", "Times after midnight of an overnight entry.", [H], [("scheduler_get_schedule_remaining_duration", H)], (), ["return value"])
p("H04", "Schedule entries survive serialization",
  "Every entry whose value fits a byte is restored exactly by deserializing its serialized form, which always takes the declared number of bytes and touches no other; serializing a deserialized entry gives back the same bytes, and the layout is fixed (flags, days, little-endian start and end, value).",
  ["inputs"], "every entry and every 11-byte buffer", "Tests do not serialize.", [H], [("scheduler_entry_serialize/deserialize", H)], (), ["bytes, entry"])
p("H05", "Scheduler entry accessors respect bounds and touch one entry",
  "Setting, zeroing or disabling an entry changes exactly that entry, an index out of range is refused with nothing changed, initialisation yields all entries disabled and zero, and the next-enabled and first-available searches return the lowest qualifying index or none. This also holds when the number of entries is chosen at run time.",
  ["inputs", "configurations"], "every index and entry content, both storage configurations", "Tests use valid indices.", [H, HH], [("index checks", H)], (), ["entries, return values"])
p("H06", "Entries that can be active together are reported as overlapping",
  "For entries that do not cross midnight, every enabled entry that shares an instant of some day with the given one is counted as overlapping; entries that are disabled, share no day, or lie strictly apart are not counted.",
  ["inputs"], "every pair of entries", "Interval containment cases are easily missed.", [H], [("scheduler_are_there_overlapping_entries", H)], (), ["count"])
Z = "serializer/serializer.h"
p("Z01", "Integers survive serialization in the named byte order",
  "For every width, byte order and value, serializing writes exactly the value's bytes in that order and no others, returns the width, and deserializing from those bytes, signed or unsigned, returns exactly the value and the width.",
  ["inputs"], "every value of every width and every buffer content", "Sign extension and shifts fail only for certain bit patterns.", [Z], [("serialize_*/deserialize_*", Z)], (), ["bytes and values"])
p("Z02", "Pack and unpack macros behave like the functions for any expression",
  "Packing any expression stores its truncated value in the named order and unpacking stores exactly the read value into the destination of any arithmetic type, with the width as result, whatever names the caller's variables have and evaluating each argument once.",
  ["inputs", "programs"], "every value, narrower and wider destination types, caller variables of any name", "Macro hygiene shows only in particular callers.", [Z], [("PACK_*/UNPACK_*", Z)], (), ["bytes and values"])
A = "state_machine/state_machine.h"
p("A01", "State machine moves exactly where the current state's handler says",
  "Sending an event calls exactly the handler of the current state, once, with the given model and event; a non-negative result becomes the new state and is reported as a change, a negative one leaves the state as it was.",
  ["inputs", "histories"], "every handler result, event and model, sequences up to the bound", "Tests cover one machine.", [A], [("generated send_event", A)], (), ["handler calls, state"])
TC = "timer/timecheck.h"
p("T01", "Time comparisons are right across timestamp wrap-around for every width",
  "For timestamps less than half the counter range apart, after, before and expiry are decided as if time never wrapped, for every timestamp width; loose expiry holds from exactly the delay on and strict expiry from one tick later, and the interval between two timestamps is their distance.",
  ["inputs", "configurations"], "every pair of timestamps and delay, timestamp types of 8, 16, 32 and 64 bits", "Wrap-around positions and narrow types are not tested.", [TC], [("difference sign", TC + ":time_after"), ("is_loosely_expired/is_strictly_expired", TC)], (), ["results"])
SW = "timer/stopwatch.c"
p("T02", "Stopwatch elapsed time counts exactly the time it was running",
  "The elapsed time is the sum of the intervals between start and pause (or now), excluding pauses, from the last stop, restart or change on, plus a preset elapsed value, also across timestamp wrap-around. State transitions that make no sense are refused and change nothing.",
  ["inputs", "histories"], "every sequence of operations up to the bound with every timestamp", "Tests do one pause.", [SW, "timer/stopwatch.h"], [("accumulated elapsed time", SW)], [("starting_time/elapsed_time/state", "running since / earlier runs / state")], ["get_elapsed, get_state, return values"])
p("T03", "Stopwatch is reached exactly when nothing remains",
  "While counting or paused, the stopwatch is reached exactly when the elapsed time is at least the period, which is exactly when the remaining time is zero; the remaining time is otherwise period minus elapsed. A stopped stopwatch is never reached.",
  ["inputs", "histories"], "every period, elapsed time and state", "Two separate computations must agree everywhere.", [SW], [("stopwatch_is_timer_reached", SW), ("stopwatch_get_remaining", SW)], (), ["is_timer_reached, get_remaining"])
TI = "timer/timer.c"
p("T04", "Timer callbacks fire once per period, and only while counting",
  "Managing a timer calls its callback, with the timer, user pointer and argument, exactly when its running time has reached the period, returning whether it did; then a one-shot timer stops and an auto-reloading one starts a new period. "
  "Pausing, resuming, resetting and changing the period preserve the run state and count only running time; a stopped timer never fires.",
  ["inputs", "histories"], "every operation sequence up to the bound, every timestamp and period", "Tests follow fixed times.", [TI], [("gel_timer_manage_callback", TI)], (), ["callback calls, remaining time"])
V = "wearleveling/wearleveling.c"
p("V01", "Wear levelled memory reads back the last successful write",
  "A read after any sequence of successful writes returns the last data written, for any number of blocks and any number of writes, including when the block index and the marker wrap around.",
  ["inputs", "histories"], "every number of blocks up to the bound, every marker and block position, every data", "Marker wrap comes after 256 writes.", [V], [("wearleveling_write", V)], [("last_active_block/last_marker", "where the live data is")], ["data read"])
p("V02", "After a restart the last written block is found again",
  "Initialising on a storage left by any number of writes finds the block that was written last, so that reads return the same data as before the restart and writing continues the rotation, whatever the marker values and block count below 256.",
  ["inputs", "histories"], "every number of writes (any marker phase), every block count up to the bound", "Tests restart from a few states.", [V], [("search_last", V)], (), ["active block, data read"])
p("V03", "Writes rotate evenly over the blocks and skip unchanged data",
  "Each write of changed data goes to the block following the active one, with the following marker, and to no other; a write of identical data touches nothing. So in any run of writes the numbers of writes per block differ by at most one.",
  ["inputs", "histories"], "every position, marker and data", "Tests look at a few writes.", [V], [("NEXT_BLOCK", V), ("memcmp before writing", V)], (), ["write requests"])
p("V04", "Wear levelling survives failed and interrupted writes",
  "When reading or writing the storage fails the error reaches the caller and the previously stored data stays the active one, in memory and after a restart; when power is lost before a write completes, a restart finds either the previous or the new data, never anything else. An error while initialising is reported.",
  ["fault_sequences", "crash_points"], "every failure of any storage call and every crash point between writes", "Tests never fail the storage.", [V], [("state committed after success", V + ":wearleveling_write"), ("error returns", V + ":wearleveling_init")], (), ["return values, data after restart"])
G, GH = "pagemanager/page_manager.c", "pagemanager/page_manager.h"
p("G01", "Every page is created, opened, closed and destroyed in balance",
  "Through any sequence of navigation, each page instance is created once before use and destroyed at most once, with the data it created and its extra argument; opens and closes alternate; exactly the current page is open; a page leaving the stack for good is destroyed, and one that stays is not.",
  ["histories"], "every navigation sequence up to the bound, every subset of callbacks", "Tests walk two pages.", [G, GH], [("close_current_page, clear_page_stack", G), ("navigation functions", G)], [("current_page/page_stack", "what is shown / what is below")], ["callback log"])
p("G02", "Navigation follows stack discipline",
  "Changing pages pushes the current one, back returns to the page below with its data, swapping replaces only the current page, rebasing leaves only the new page, and resetting to an id drops pages down to the first one with that id and says whether it was found. Back on the last page changes nothing.",
  ["histories"], "every navigation sequence up to the bound", "Depth matters.", [G], [("navigation stack", G)], (), ["current page, events reaching it"])
p("G03", "Only the current page receives events and updates",
  "Processing an event calls exactly the current page's handler with the model, its own data and the event, and returns its answer; after navigation and on request exactly the current page is updated with the model and its data, and its view is returned.",
  ["histories", "inputs"], "every state, event and answer", "Data of a page below could be used by mistake.", [G], [("pman_process_page_event, pman_page_update", G)], (), ["callback log, return values"])
p("R09", "Formatting a parameter prints its value",
  "Formatting a parameter passes the caller's format and exactly its value, sign included, once to the C library's formatter, which writes into the caller's buffer; so a conversion matching the type prints the value, for every type and value. Nothing is printed for a missing handle, and the parameter is not changed.",
  ["inputs"], TY + " and value", "Sign extension and promotion errors need specific values; no test formats.", [R], [("parameter_to_string_format", R)], (), ["arguments of the formatter, the buffer"])
