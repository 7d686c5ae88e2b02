I, H, CF, FS = 'inputs', 'histories', 'configurations', 'fault_sequences'
SAMP = 'The unit tests run a handful of fixed examples; the property quantifies over '

prop('C01', 'CRC-8/16/32 equal their polynomial definition for every buffer and chain',
 'For every buffer of every length and every starting value, the 8-, 16- and 32-bit CRC functions return exactly the complemented-register CRC of the documented polynomial over those bytes in order. Feeding the result of one call as the starting value of the next gives the CRC of the concatenation. A null pointer or zero length returns the starting value unchanged, and nothing outside the buffer is read.',
 [I], 'all lengths 0..2^32-1, all contents, all starting values', SAMP + 'all lengths, contents and starting values.',
 ['src/crc.c', 'include/embc/crc.h'], [('bitwise register update per byte', 'src/crc.c')], ['return values'],
 note='loop invariants, no length bound; native long-buffer search for inputs')

prop('C02', 'Byte-order encode and decode are exact and mutually inverse',
 'Encoding any 8-, 16-, 32- or 64-bit value big- or little-endian stores exactly the bytes of that value in that order and advances the cursor by exactly the width. Decoding returns the value those bytes denote, so decode of encode is the identity for every value. No byte outside the width is read or written.',
 [I], 'all values and all prior buffer contents', SAMP + 'all 2^64 values and all neighbouring bytes.',
 ['include/embc/bbuf.h'], [('encode/decode macros and inline functions', 'include/embc/bbuf.h')], ['buffer bytes', 'return values', 'cursor'],
 note='dfcc function contracts with frames for every inline function, loop-free triples for the macros')

prop('C03', 'Buffer reads and writes stay in bounds and move exactly the requested data',
 'For every well-formed buffer, a write or read of n bytes (typed or bulk) that fits the remaining room or contents transfers exactly those n bytes at the cursor, advances the cursor by n, extends the length only as far as the cursor, and changes nothing else. A write that does not fit between the cursor and the reserved tail, a read past the length, or a seek outside the contents is refused through the fatal handler before anything is modified. Every operation preserves cursor <= length <= capacity.',
 [I, H], 'all capacities 0..65535, contents, cursors, lengths, reserves, sizes', SAMP + 'all buffer states and sizes.',
 ['src/memory/buffer.c', 'include/embc/memory/buffer.h'], [('remaining-size checks before every access', 'src/memory/buffer.c')],
 ['buffer contents, cursor, length', 'fatal handler'], note='triples over an arbitrary well-formed buffer; arbitrary byte index stands for all',
 state=[('cursor/length/reserve', 'position, content size, reserved tail', 'include/embc/memory/buffer.h')])

prop('C04', 'Buffer erase, string append and buffer copy do exactly what they say',
 'Erasing [start, end) removes exactly those bytes, moves the rest down, and keeps the cursor at the same content position; indices outside the contents are refused. Appending a string writes its bytes without terminator up to the available room and reports truncation exactly when bytes were dropped, or refuses a string that does not fit when truncation is not allowed. Copying n bytes between buffers appends exactly the source bytes at its cursor, leaves the source contents alone, and is refused when either side is too small.',
 [I, H], 'all buffer states, ranges, strings and sizes', SAMP + 'all ranges, strings and buffer states.',
 ['src/memory/buffer.c', 'include/embc/memory/buffer.h'], [('byte-moving loops', 'src/memory/buffer.c')], ['buffer contents, cursor, length', 'return value', 'fatal handler'],
 note='loop invariants over an arbitrary index; lengths free')

prop('C05', 'The buffer allocator never hands out short, overlapping or doubly used buffers',
 'Every buffer handed out is empty, has at least the requested capacity, and is disjoint from every other outstanding buffer and from the allocator bookkeeping. A request is met whenever the smallest sufficient size class has a free buffer; otherwise it yields null (or the fatal handler for the asserting variant), and a request of zero or more than the largest class is refused. A freed buffer becomes available again in its own class and nothing else changes.',
 [I, H, CF], 'all request sizes, all allocate/free histories, all configurations up to 11 size classes', SAMP + 'all histories and sizes.',
 ['src/memory/buffer.c', 'include/embc/memory/buffer.h', 'include/embc/collections/list.h'], [('per-class free lists', 'src/memory/buffer.c')], ['returned buffers', 'fatal handler'],
 note='alloc/free: single-step triples on arbitrary free lists; initialization loops bounded (small configurations) plus native histories')

prop('C06', 'The fixed-block pool hands out each block to one owner at a time',
 'After initialization with any block count and size, exactly that many distinct, non-overlapping, pointer-aligned blocks of at least the requested size can be taken before the pool reports empty. Allocation from an empty pool yields null or, for the asserting variant, the fatal handler; a block is handed out again only after it was freed. The pool stays inside the memory size it announced.',
 [I, H, CF], 'all alloc/free histories, block counts and sizes', SAMP + 'all histories.',
 ['src/memory/pool.c'], [('singly linked free list', 'src/memory/pool.c')], ['returned blocks', 'is-empty query'],
 note='alloc/free single-step triples on arbitrary free lists; initialization bounded')

prop('C07', 'Pooled objects are constructed once, reference counted and recycled once',
 'An object taken from the pool has exactly one owner and its constructor has run; each added reference must be released before the destructor runs, which then happens exactly once, after which the object is available again. Distinct live objects never share memory. Releasing or referencing an object that is not live is caught by the fatal handler.',
 [H, CF], 'all histories of allocate/reference/release', SAMP + 'all histories.',
 ['src/memory/object_pool.c', 'include/embc/memory/object_pool.h'], [('per-object header with reference count', 'src/memory/object_pool.c')], ['constructor/destructor calls', 'returned objects', 'fatal handler'],
 note='single-step triples; initialization bounded')

prop('C08', 'The bitmap block allocator never overlaps live allocations',
 'Every allocation returns a block-aligned range inside the managed memory, at least the requested size, that overlaps no live allocation. An allocation succeeds whenever a long enough run of free blocks exists and yields null (or the fatal handler) otherwise. Freeing an allocation makes exactly its blocks free again, and freeing blocks that are not allocated is caught by the fatal handler.',
 [I, H, CF], 'all alloc/free histories and sizes', SAMP + 'all histories; no test allocates past the first freed hole.',
 ['src/memory/block.c', 'include/embc/memory/block.h'], [('one bit per block', 'src/memory/block.c')], ['returned pointers', 'fatal handler'],
 note='loop contracts over an arbitrary bitmap; at most 4000 blocks in the model')

prop('C09', 'Doubly linked list operations keep every list circular and complete',
 'Adding, removing and inserting items, and appending whole lists, change exactly the affected links: every list stays a circular doubly linked sequence holding each item once, in the documented order, and removed items are left unlinked. Peeking, counting, indexing, membership and iteration report exactly that sequence. This holds for empty, single-item and longer lists alike.',
 [I, H], 'all lists and all items', SAMP + 'all list shapes; several operations have no test.',
 ['include/embc/collections/list.h', 'src/collections/list.c'], [('pointer splicing', 'include/embc/collections/list.h')], ['list traversal in both directions'],
 note='O(1) operations on every state of a six-node universe (they touch five); traversals by bounded unwinding')

prop('C10', 'The integer map behaves as a finite map through every resize',
 'After any sequence of insertions, replacements, removals and resizes, looking up a key returns exactly the value last stored for it, absent keys are reported absent, and the size equals the number of present keys. Iteration visits each present key exactly once with its value, and the map releases every allocation when it is destroyed.',
 [H, I], 'all histories over all keys', SAMP + 'all histories; tests never force a collision across a resize.',
 ['src/collections/intmap.c', 'include/embc/collections/intmap.h'], [('chained hash bins', 'src/collections/intmap.c')], ['get/put/remove results', 'iterator'],
 note='get, put, remove on chains of any length by loop invariant; rehash, iteration, destruction bounded; native histories')

prop('C11', 'The generic hash map behaves as a finite map',
 'With any equality and hash functions that agree, looking up a key returns exactly the value last stored under an equal key, and replaced values are returned to the caller. The number of items equals the number of distinct keys stored, and destroying the map releases every allocation.',
 [H, I], 'all histories, including all hash collisions', SAMP + 'all histories and collision patterns.',
 ['src/collections/hashmap.c', 'include/embc/collections/hashmap.h'], [('chained hash table', 'src/collections/hashmap.c')], ['get/put results', 'allocator balance'],
 note='get, put on chains of any length by loop invariant; destruction bounded; native histories')

prop('C12', 'The string map behaves as a finite map over string contents',
 'After any sequence of insertions, replacements, removals and clears, looking up a string returns exactly the value last stored under a string with equal contents, and absent strings are reported absent. Different strings never alias, even when their hashes collide, and the map releases every allocation when destroyed.',
 [H, I], 'all histories over all strings', SAMP + 'all strings including hash collisions.',
 ['src/collections/strmap.c', 'include/embc/collections/strmap.h'], [('hash of the string contents, full comparison', 'src/collections/strmap.c')], ['get/put/remove results', 'allocator balance'],
 note='get, put, remove on chains and strings of any length by loop invariant; destruction bounded; native histories')

prop('C13', 'C-string helpers never overrun and compare and copy exactly',
 'Copying a string never writes past the destination size, always terminates the destination, and reports truncation exactly when the source did not fit. Case-insensitive comparison, prefix matching, upper-casing, table lookup and boolean parsing give exactly the result defined by folding ASCII case over the whole strings. Null arguments and zero sizes are handled as documented without access.',
 [I], 'all strings and sizes', SAMP + 'all strings and destination sizes.',
 ['src/cstr.c', 'include/embc/cstr.h'], [('bounded character loops', 'src/cstr.c')], ['destination bytes', 'return values'],
 note='loop invariants where the length is free; bounded strings for table lookups')

prop('C14', 'Number parsing accepts exactly representable numbers with their exact value',
 'Whenever parsing text as an unsigned, signed or fixed-point decimal number reports success, the stored value is exactly the mathematical value of the text and fits the result type. Text that is empty, malformed or out of range is reported as an error and leaves the output unmodified. No input causes undefined arithmetic or reads past the terminator.',
 [I], 'all strings', SAMP + 'all strings; tests never try out-of-range numbers.',
 ['src/cstr.c', 'include/embc/cstr.h'], [('digit accumulation', 'src/cstr.c')], ['return value', 'stored value'],
 note='reference automaton in lockstep by loop invariant, strings of any length; short strings also by complete unwinding')

prop('C15', 'Hex digit conversion is exact and inverse',
 'Converting a nibble value to a hex character and back is the identity for 0 to 15, upper- and lower-case digits are both accepted, and every other character or value yields the documented invalid result.',
 [I], 'all character and nibble values', SAMP + 'all values.',
 ['src/cstr.c', 'include/embc/cstr.h'], [('conversion functions', 'src/cstr.c')], ['return values'],
 note='loop-free over the full input domain')

prop('C16', 'The command line editor turns any keystrokes into the right line or an error',
 'For every sequence of characters received, the line executed on enter (carriage return, or line feed not following one) is exactly what the typed characters denote: characters erased by backspace or delete are gone, runs of blanks and tabs are one blank, leading and trailing blanks and everything from #, @ or % on are dropped, and a blank line executes nothing. A line too long for the buffer is reported as an error, never overruns the buffer and is never executed truncated. After each line the editor starts empty again.',
 [H, I], 'all character sequences', SAMP + 'all keystroke sequences.',
 ['src/cli.c', 'include/embc/cli.h'], [('line buffer and compaction at end of line', 'src/cli.c')], ['executed command lines', 'reported status'],
 note='single-key triples from an arbitrary state; compaction by lockstep loop invariant')

prop('C17', 'Command lines are split into exactly the documented arguments',
 'For every command line, the arguments passed to the handler are exactly its words (separated by blanks, tabs or commas) in order, each terminated and inside a private copy of the line, together with the handler cookie. More words or a longer line than supported are reported as an error instead of being dropped, cut or overrunning. The original command line is not modified or read past its end.',
 [I], 'all command lines', SAMP + 'all command lines.',
 ['src/cli.c', 'include/embc/cli.h'], [('in-place tokenizer', 'src/cli.c')], ['handler arguments', 'status'],
 note='bounded line length by complete unwinding; native search for longer lines')

prop('C18', 'Scheduled events run once, in time order, and never early',
 'Each scheduled event is invoked exactly once, in the first processing pass at or after its time, unless cancelled before; events run in time order, and events of equal time in scheduling order. The reported time to the next event is zero when one is due, otherwise exactly the remaining time of the earliest event. Callbacks may schedule and cancel events, including ones due in the same pass, without losing, repeating or corrupting any.',
 [H, I], 'all schedules, cancels and processing times', SAMP + 'all histories; no test reenters from a callback.',
 ['src/event_manager.c', 'include/embc/event_manager.h'], [('list ordered by timestamp', 'src/event_manager.c')], ['callback invocations', 'next-time queries'],
 note='schedule, cancel, process on queues of any length by loop invariant; whole-queue comparison bounded; native histories')

prop('C19', 'Event handles are unique and cancel exactly their event',
 'Every scheduled event gets a positive handle that no other pending event has and that is not reused for a later event while the old holder could still use it. Cancelling a handle removes exactly that pending event and no other; cancelling a handle whose event already ran or was cancelled has no effect.',
 [H], 'all histories of schedule, cancel and process', SAMP + 'all histories.',
 ['src/event_manager.c'], [('event identifiers', 'src/event_manager.c')], ['handles', 'callback invocations'],
 note='schedule, cancel, process on queues of any length by loop invariant; 2^31 schedules before a handle value can repeat')

prop('C20', 'The state machine takes exactly the first matching transition',
 'On each event the machine takes the first table entry whose current state and event match (including wildcards) and whose guard allows it; a declined guard moves on to the next entry, and no match leaves the state unchanged. A transition runs the exit of the old state, then the entry of the new one, and reset enters the initial state. Events raised from within handlers do not recurse into the machine: they are handled, in order, after the current event.',
 [H, I], 'all tables, states, events and guard outcomes', SAMP + 'all tables and events.',
 ['src/fsm.c', 'include/embc/fsm.h'], [('table scan', 'src/fsm.c')], ['state', 'handler calls'],
 note='loop invariant over tables of any length')

prop('C21', 'The LFSR sequence, its period and its receiver are exact',
 'Each step of the generator follows the documented polynomial exactly, so from any nonzero seed every nonzero state is visited before repeating, and zero is never reached. The receiver reports no error exactly when a byte equals the continuation of what it last accepted, and after any history it resynchronizes from received data alone.',
 [I, H], 'all states and received values', SAMP + 'all 65535 states and all received words.',
 ['src/lfsr.c', 'include/embc/lfsr.h'], [('shift register and feedback', 'src/lfsr.c')], ['generated bits', 'receive status'],
 note='triples over all states; the period by linear algebra over GF(2) on the proved step function')

prop('C22', 'The pattern generator emits exactly the documented 32-bit sequence',
 'From any position the generator emits the documented sequence word by word with its documented period, and generating into a buffer gives exactly the same words as repeated single steps, for every buffer size, with no write outside it.',
 [I, H], 'all generator states and buffer sizes', SAMP + 'all states and sizes.',
 ['src/pattern_32a.c', 'include/embc/pattern_32a.h'], [('counter and shift register', 'src/pattern_32a.c')], ['generated words'],
 note='loop invariant over the buffer length')

prop('C23', 'The pattern receiver accounts for every word and resynchronizes',
 'Every received word is counted exactly once as received, and error-free continuation of the sequence adds no error, missing or duplicate counts. After an error the receiver resynchronizes on the continuing sequence and attributes skipped or repeated words to the missing and duplicate counts. No received word can corrupt state or be processed out of bounds.',
 [H, I], 'all receiver states and received words', SAMP + 'all histories of received words.',
 ['src/pattern_32a.c', 'include/embc/pattern_32a.h'], [('receive state machine', 'src/pattern_32a.c')], ['status counters'],
 note='single-step triples over an arbitrary receiver state; buffer entry by loop invariant')

prop('C24', 'Frame construction and validation agree on exactly the valid frames',
 'A frame built from any valid header fields and payload validates, and its fields and payload are recovered exactly; acknowledgement frames likewise. Validation accepts a byte sequence only if start marker, header checksum, length and payload checksum all match, and reports how much is missing or which check failed, without reading past the bytes given.',
 [I], 'all byte sequences, field values and payloads', SAMP + 'all corruptions and lengths.',
 ['src/stream/framer.c', 'include/embc/stream/framer.h'], [('header CRC-8, frame CRC-32', 'src/stream/framer.c')], ['validation result', 'frame bytes'],
 note='CRC replaced by its contract from C01; payload length free')

prop('C25', 'The frame receiver survives every byte stream and finds every intact frame',
 'For every stream of bytes in every chunking, receiving never accesses memory out of bounds, never invokes the fatal handler, and never keeps more than one frame buffered or leaks a buffer. Each intact frame delimited in the stream is delivered at most once, and after noise or a damaged frame the receiver resynchronizes so that following intact frames are received.',
 [I, H, FS], 'all byte streams and chunkings', SAMP + 'all byte streams; remote data must not crash the receiver.',
 ['src/stream/framer.c'], [('receive state machine and resynchronization', 'src/stream/framer.c')], ['delivered frames', 'fatal handler', 'allocator balance'],
 note='single-byte step on an arbitrary receiver state; resynchronization by loop contract, no bound; native streams for inputs')

prop('C26', 'Received data is delivered in order, once, and acknowledged',
 'After a link reset, provided the peer follows the protocol window and reception does not time out, payloads are delivered to their port exactly once and in transmit order, whatever frames are lost, duplicated or reordered within the window. Every data frame received intact is answered by an acknowledgement naming it; the acknowledgement also tells which of the frames around it have arrived, so that a gap is repaired.',
 [H, FS], 'all loss, duplication and reordering histories', SAMP + 'all fault sequences.',
 ['src/stream/framer.c'], [('frame identifier window and pending list', 'src/stream/framer.c')], ['port callbacks', 'acknowledgements sent'],
 note='one-frame triples over the six reachable window states and all identifiers; native histories')

prop('C27', 'Transmission respects the window, retries, and completes each send once',
 'At most the window of data frames is outstanding, frames are first sent in order, and every send is completed to its owner exactly once: success when acknowledged, or a failure after the allowed retries. Unacknowledged frames are retransmitted after the timeout with unchanged contents, and no acknowledgement sequence, however corrupted or unexpected, completes a frame that it does not name or disturbs others.',
 [H, FS], 'all acknowledgement, timeout and loss histories', SAMP + 'all fault sequences.',
 ['src/stream/framer.c'], [('transmit window and per-frame status', 'src/stream/framer.c')], ['bytes sent', 'send completions', 'timers'],
 note='one-event triples over every reachable slot state; native histories and a lossy link')

prop('C28', 'Stream transfer delivers exactly the source bytes to the sink',
 'A memory source connected to a memory sink delivers exactly the source bytes, in order and without duplication, in pieces of at most the agreed block size, and reports completion once. A transfer larger than the sink is rejected without writing outside it, and aborts or unexpected events leave both ends in a defined state.',
 [H, I], 'all sizes, block sizes and event orders', SAMP + 'all sizes and event orders.',
 ['src/stream/async_source.c', 'src/stream/async_sink.c', 'include/embc/stream/async.h'], [('event handlers of source and sink', 'src/stream/async_sink.c')], ['sink memory', 'events exchanged'],
 note='single-step triples over arbitrary source/sink states')

prop('C29', 'Every error code and log level has its own correct name',
 'For every integer, the error-code and log-level name functions return a valid, terminated string: the name documented for exactly that code or level, and the unknown marker for every other value. No value causes an out-of-range table access.',
 [I], 'all integer codes', SAMP + 'all codes.',
 ['src/ec.c', 'src/log.c', 'include/embc/ec.h', 'include/embc/log.h'], [('name tables', 'src/log.c')], ['returned strings'],
 note='loop-free over the full integer domain')

prop('C30', 'Bit and time arithmetic is exact over its whole domain',
 'Leading-zero count, power-of-two round-up and round-up-to-multiple give exactly the mathematical result for every input in their domain. Time conversions between ticks and seconds, milliseconds, microseconds and counters give the correctly rounded mathematical value, and minimum, maximum and absolute value are exact, for every input whose result is representable.',
 [I], 'all inputs whose result is representable', SAMP + 'the whole 32/64-bit domain.',
 ['include/embc/platform/stdlib.h', 'include/embc/cdef.h', 'include/embc/time.h'], [('bit tricks and fixed-point multiplications', 'include/embc/time.h')], ['return values'],
 note='loop-free triples over the full domain')

prop('C31', 'Misuse checks fire exactly on violation, and allocation goes to the chosen heap',
 'Every argument- and contract-checking macro reports (error return, or fatal handler) exactly when its condition is violated, for every value, and otherwise evaluates its arguments without effect. Memory requests are forwarded to the allocator the application installed, with the requested size, and an allocation made before one is installed or that fails is caught by the fatal handler.',
 [I, CF], 'all argument values and installed allocators', SAMP + 'all values.',
 ['include/embc/argchk.h', 'include/embc/dbc.h', 'include/embc/assert.h', 'src/platform.c'], [('checking macros', 'include/embc/dbc.h')], ['return values', 'fatal handler'],
 note='loop-free triples over the full domain')
