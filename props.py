# The properties.  gen.py writes properties.jsonl and MANIFEST.json from this.
# id: (title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], [(state, meaning, where)], observe_at)
P = {}
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), rule="", note="", assumptions=(), level="exploration"):
    assert len(title) <= 80, (id, len(title))
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state,
                 observe=list(observe), rule=rule, note=note, assumptions=list(assumptions), level=level)

prop("C01", "Interthread queue: every item delivered exactly once, in FIFO order",
 "However many threads put into and take from an interthread queue (the one with a condition wait and the plain one, also when queues share one lock), every item put at the back is taken exactly once, items come out in the order they were put, items pushed to the front come out first, and every operation acts as if executed at one instant between its call and its return. "
 "Size, empty test, front/peek, iteration under the queue's lock and conditional put/get report the contents at that instant; a blocking, timed or non-blocking take never returns an item that was not put, and returns nothing only when the queue held nothing. "
 "Clearing or destroying a queue deletes exactly the items still in it; items handed to a taker are never deleted, and nothing leaks.",
 ["schedules","histories"], "all interleavings of any number of producers and consumers and all operation sequences; all queue flavours and element pointers including repeats",
 "InterthreadTest runs one producer and one consumer and prints; ordering, loss and duplication depend on the interleaving and on rarely used operations",
 ["Interthread.h"], [("single mutex held across every queue operation","Interthread.h InterthreadQueue, InterthreadQueue2, InterthreadQueueWithWait"),("PointerFIFO under the lock","LinkedLists.h")],
 [("mQ","queued pointers","Interthread.h")], ["returned pointers, sizes, destructor calls"],
 rule="a case is one random program of several threads and operations (or one sequential program) against a queue flavour; it is non-trivial when at least one take met at least one put; distinct by the hash of the observed history",
 note="linearizability of the recorded history checked by search against a FIFO model; conservation, order and destructor counts checked under stress; interleavings are sampled under injected delays, not enumerated",
 assumptions=["pointers borrowed with front/peek are not used after another thread may have taken or cleared the item","queues sharing one lock: the owner of the lock outlives the other"])

prop("C02", "No lost wakeups; timed waits end on time",
 "A thread blocked waiting on any of the library's waiting primitives (queue take, queue low-water wait, waiting for either of two queues, map wait for a key, priority-queue take, semaphore get, condition wait) returns as soon as its condition holds: no interleaving of waiters and wakers leaves a waiter asleep while an item, key, count or state it waits for is present, with one or several waiters and spurious wakeups. "
 "A wait with a timeout returns by its deadline (never markedly early with nothing, never much later, and without burning the processor or holding the lock meanwhile), and returns an available item even when the timeout is zero or just passed.",
 ["schedules","histories"], "all interleavings of waiters, wakers and timeouts, for any number of waiters, timeout lengths from 0 up",
 "a lost wakeup needs a particular interleaving between testing the condition and sleeping; the tests have one waiter and never look at timing",
 ["Interthread.h","Threads.h","Threads.cpp","Timeval.h","Timeval.cpp"], [("condition variable waited on in a loop under the same mutex as the state; broadcast/signal after each change","Interthread.h, Threads.h Signal")],
 [], ["which waiters have returned at quiescence","elapsed time of timed calls"],
 rule="a case is one random schedule of waiters, wakers and timed calls; non-trivial when at least one waiter was really asleep when woken or timed out; distinct by scenario parameters and outcome",
 note="quiescence oracle: after all wakers have finished, a waiter whose condition holds must return; timing bounds are generous (scheduling noise) and a late case is repeated before it counts",
 assumptions=["the machine schedules a runnable thread within about a second"])

prop("C03", "Interthread map: linearizable, with exact ownership of its values",
 "However many threads use it, the interthread map acts as one map on which every write, read, non-blocking read, timed read, remove, delete, test and size happens at one instant between call and return: a read of a key returns the value last written to it and not removed since, and a blocking read of an absent key returns only once it is written, with that value. "
 "Rewriting, removing, clearing and destroying delete each replaced or removed value exactly once, never a value still present or already handed over, and nothing leaks; the variant that stores values rather than pointers returns exactly what was stored.",
 ["schedules","histories"], "all interleavings and operation sequences, any keys",
 "the test writes and reads 20 keys with one thread each; races and ownership of replaced values are never examined",
 ["Interthread.h"], [("one mutex and condition per map","Interthread.h InterthreadMap, InterthreadMap1")], [("mMap","current bindings","Interthread.h")], ["returned values, destructor calls"],
 rule="a case is one random multi-thread or sequential program on a map; non-trivial when reads met writes of the same key; distinct by observed history",
 note="recorded histories are checked for linearizability per key against a sequential map; ownership by counting destructor calls under AddressSanitizer",
 assumptions=["the caller does not write a pointer that is already stored under the same key"])

prop("C04", "Priority queue: smallest first, nothing lost or duplicated",
 "However many threads write and read it, every pointer written to the interthread priority queue is read exactly once, and each read removes an element than which no element then in the queue is smaller in the queue's ordering. "
 "Reads act as if at one instant between call and return; size and clear report and delete exactly what is queued, and destruction of the queue neither leaks nor deletes what was handed out.",
 ["schedules","histories"], "all interleavings of writers and readers, all priorities including ties",
 "there is no test of the priority queue's order under concurrency",
 ["Interthread.h"], [("heap adaptor under one mutex","Interthread.h InterthreadPriorityQueue")], [("mQ","heap of queued pointers","Interthread.h")], ["returned pointers"],
 rule="a case is one random program of writers and readers with many equal priorities; non-trivial when several elements were queued at a read; distinct by observed history",
 note="linearizability against a priority multiset (any order within ties), conservation under stress")

prop("C05", "Mutexes and read-write locks exclude, nest and report truthfully",
 "At any instant at most one thread holds a mutex and a read-write lock is held by one writer or any number of readers but never both; the mutex may be locked again by its holder and is free for others exactly after as many unlocks. "
 "A try or timed lock reports success exactly when it took the lock (the timed one waiting at most about its timeout, and reporting success if the lock becomes free before then), scope locks hold for exactly their scope, and the reported nesting count equals the number of locks held, also while and after waiting on a condition.",
 ["schedules","histories"], "all interleavings and nestings of lock, try, timed lock, unlock, scope lock and condition waits",
 "LockTest has one fixed schedule, and nothing tries timed locks of a held mutex or counts nesting",
 ["Threads.h","Threads.cpp"], [("recursive pthread mutex; pthread rwlock","Threads.h Mutex, RWLock, ScopedLock")], [("mLockCnt","nesting count","Threads.h")], ["return values, overlap of critical sections"],
 rule="a case is one script of lock operations by several threads compared with a model of the lock, or one exclusion stress; distinct by the script",
 note="exclusion is witnessed by unprotected counters and overlap flags inside critical sections under injected delays")

prop("C06", "Locking several mutexes at once is all-or-nothing and never deadlocks",
 "Locking a set of two or three mutexes together returns with each of them held exactly once, whatever their order and whichever of them the caller declared it already held, and the end of the scope leaves each as the caller had it before. "
 "No set of threads doing this, in any orders of the same mutexes, deadlocks or excludes a thread for ever.",
 ["schedules"], "all orders, overlaps and interleavings of two- and three-mutex locks, with up to one mutex already held by the caller in a consistent order",
 "the tests lock in one order at a time; the deadlock needs opposite orders to interleave",
 ["Threads.h","Threads.cpp"], [("try the others, release all and back off on failure","Threads.cpp ScopedLockMultiple")], [], ["progress of all threads; lock ownership"],
 rule="a case is one script (checked against a model of ownership) or one stress of threads locking overlapping sets in random orders; distinct by orders used",
 note="deadlock is detected as no progress within the case limit, reproduced before it counts")

prop("C07", "Threads run once and join; semaphores count as documented",
 "A started thread runs its function exactly once with exactly the argument given, and join returns only after that function has ended and its effects are visible. "
 "A semaphore is a binary flag: a post sets it, a get returns after it was set and clears it, a non-blocking get succeeds exactly when it was set, and every successful get corresponds to a distinct post.",
 ["schedules","histories"], "all interleavings of starters, joiners, posters and getters",
 "ThreadTest is not reliable and the semaphore is not tested at all",
 ["Threads.h","Threads.cpp","Interthread.h"], [("pthread create/join with a stack attribute","Threads.cpp Thread"),("flag under a signal","Interthread.h Semaphore")], [("mFlag","posted and not yet taken","Interthread.h")], ["run counters, return values"],
 rule="a case is one set of threads started and joined, or one random program of posts and gets; distinct by observed history",
 note="semaphore histories are checked for linearizability against a binary flag")

prop("C08", "Reference-counted objects die exactly once, with the last reference",
 "An object held by reference-counting pointers is destroyed exactly once, when and only when the last pointer to it is destroyed, reassigned or released, from whichever threads pointers are copied, assigned (also to themselves or to a pointer reached through the object) and dropped; while any pointer refers to it the object stays alive. "
 "The reported reference count equals the number of pointers, and comparisons and conversions reflect the pointer held.",
 ["schedules","histories","programs"], "all programs of copy, assign, release and destroy over any number of pointers and threads (fewer than 32767 references)",
 "no existing test covers the reference-counting pointer",
 ["Interthread.h","LinkedLists.h","Threads.h","MemoryLeak.h"], [("count under a mutex in the object","MemoryLeak.h RefCntBase/RefCntPointer")], [("mRefCnt","number of pointers","MemoryLeak.h")], ["destructor calls, counts"],
 rule="a case is one random program over pointer slots; non-trivial when an object had at least two references; distinct by program",
 note="destructor counting plus AddressSanitizer for use after free; concurrent programs under injected delays and ThreadSanitizer (C31)")

prop("C09", "Linked lists and pointer FIFOs act as the sequences they represent",
 "For every sequence of operations the pointer FIFO, the intrusive singly linked list and the pointer list return the same elements, in the same order, with the same sizes, as a plain sequence would under push to front or back, pop from front, front, empty, size, clear and removal. "
 "They release their own nodes, never touch or delete the elements except where documented, and remain usable after being emptied.",
 ["programs","inputs"], "all finite operation sequences",
 "the lists are only exercised indirectly, never through emptying and refilling or mixed front and back pushes",
 ["LinkedLists.h","LinkedLists.cpp"], [("head/tail pointers and size counter","LinkedLists.h")], [("mHead, mTail, mSize","list structure","LinkedLists.h")], ["returned elements, sizes, memory in use"],
 rule="a case is one random operation sequence compared step by step with a reference deque; non-trivial when the list was non-empty; distinct by sequence",
 note="reference-model comparison; leak accounting by counting live allocations")

prop("C10", "Vectors copy, alias and own exactly the elements they say they do",
 "A vector obtained by copying, concatenating, assigning, cloning or resizing has its own elements, equal to the source's at that time; one obtained as a segment, head, tail or alias shares them, so that a write through either is seen through both and through nothing else; this holds for generic, bit and soft vectors and for chained, nested and self-overlapping assignments. "
 "Element access, fill, concatenation, copying to and from segments, iteration, comparison and size give what the element sequence implies, and each block of elements, which may be of any class that can be copied, is destroyed exactly once, after its last owner.",
 ["programs","inputs"], "all programs of construct, copy, alias, assign, resize, concatenate and destroy over a set of vectors whose aliases outlive neither owner",
 "VectorTest uses a handful of fixed programs; double release and wrong sharing need particular ownership chains",
 ["Vector.h","BitVector.h","BitVector.cpp"], [("owner pointer mData against view mStart/mEnd","Vector.h")], [("mData, mStart, mEnd","ownership and view","Vector.h")], ["element values via all views; element constructor/destructor counts"],
 rule="a case is one random program over a dozen vectors compared with a model with explicit sharing; distinct by program",
 note="reference model with explicit storage identity; element types with constructor/destructor counting; AddressSanitizer",
 assumptions=["an alias is not used after the vector that owns its elements is destroyed or reassigned"])

prop("C11", "Bit fields read back exactly what was written, in either bit order",
 "Writing a value of up to 64 bits into a bit vector at any offset, in most- or least-significant-first order, stores exactly those low bits there and changes no bit outside the field; reading a field of any offset and length, through the fixed-offset or the advancing-index form, returns the bits stored. "
 "Advancing forms move the index by the field length, and appended, filled, inverted, compared, summed and sub-vector bits agree with the bit sequence, values staying 0 or 1.",
 ["inputs","programs"], "all vectors, offsets, lengths 0 to 64, values and sequences of writes within bounds",
 "BitVectorTest prints a few examples; width, offset and order combinations are unbounded",
 ["BitVector.h","BitVector.cpp"], [("per-bit loops","BitVector.cpp peekField, fillField, reversed forms")], [], ["every bit of the vector after each write"],
 rule="a case is a random program of field writes and reads compared with a plain bit array; distinct by parameters and contents",
 note="reference model, all widths 0..64 and boundary values weighted", assumptions=["fields lie within the vector","length at most 64","bits are 0 or 1"])

prop("C12", "Packing bits to bytes and hex and back is lossless",
 "Packing a bit vector into bytes and unpacking it gives the same bits for every length, most significant bit first with a partial last byte left-aligned (or right-aligned in the form that documents it), writing no byte beyond those needed; the same holds for the text form, and for the hexadecimal form of lengths divisible by four. "
 "Reversing each byte's bits is its own inverse, handles a partial last byte as documented, and text that is not entirely hexadecimal digits is refused.",
 ["inputs"], "all bit strings of any length, all byte contents, all texts",
 "the tests pack two literals; partial bytes and every residue of the length are unexplored",
 ["BitVector.h","BitVector.cpp"], [("byte loops with a remainder case","BitVector.cpp pack, pack2, unpack, hex, unhex, LSB8MSB")], [], ["packed bytes with guard bytes around, unpacked bits"],
 rule="a case is one bit string with random length 0..300 packed, unpacked and converted in every form and compared with an independent implementation; distinct by content",
 note="round trip and independent reference; guard bytes plus AddressSanitizer for overruns")

prop("C13", "Parity and CRC words match polynomial division and detect errors",
 "For every generator polynomial, word length and data, the parity computed equals the remainder of the data polynomial by the generator, inverted exactly where asked; a written parity word checks out with the corresponding syndrome, and any single-bit change of data or parity is detected. "
 "Computing it does not depend on anything computed before, and does not change the data.",
 ["inputs"], "all data of any length, all generators of degree 1 to 63 with non-zero constant term",
 "no test compares parity with an independent computation",
 ["BitVector.h","BitVector.cpp"], [("shift-register generator","BitVector.cpp Generator, Parity")], [("mState","remainder so far","BitVector.h Generator")], ["parity words and syndromes"],
 rule="a case is one random generator and data vector; compared with schoolbook polynomial division; distinct by both",
 note="independent long division over GF(2) as oracle")

prop("C14", "Bit mapping, puncturing and soft bits match their definitions",
 "Mapping by a permutation table and unmapping by the same table are inverse, copying through a table moves exactly the listed elements, and puncturing keeps exactly the elements not listed, in order. "
 "Slicing soft bits gives 1 exactly above one half, hard-to-soft-to-hard conversion is the identity, unknown bits are one half, and energy, signal-to-noise and bit-error figures equal their definitions.",
 ["inputs"], "all vectors, index tables and soft values",
 "only demonstrated on one example",
 ["BitVector.h","BitVector.cpp","Vector.h"], [("index-table loops","BitVector.cpp map, unmap, puncture, sliced, settfb, getEnergy")], [], ["resulting vectors"],
 rule="a case is one vector and table compared with a direct evaluation of the definition; distinct by content",
 note="direct evaluation of definitions as oracle")

prop("C15", "Time values add, compare and convert consistently",
 "For all times and differences (up to decades), adding milliseconds and taking the difference are inverse, comparison agrees with the difference's sign, remaining and elapsed are opposite, passed means not in the future, and seconds, microseconds and timespec forms denote the same instant with the sub-second part always within one second. "
 "Sleeping lasts at least the requested time even when interrupted by signals, and the textual forms show the instant they were given.",
 ["inputs","fault_sequences"], "all instants and offsets within 68 years, all microsecond parts, all signal arrivals during a sleep",
 "TimevalTest sleeps twice; carries, borrows and large values are never hit",
 ["Timeval.h","Timeval.cpp","Utils.cpp"], [("explicit carry and borrow of microseconds","Timeval.cpp")], [("mTimeval","normalised seconds and microseconds","Timeval.h")], ["results compared with 64-bit integer arithmetic on a controlled clock"],
 rule="a case is a set of random instants and offsets (boundary microseconds weighted) on a virtual clock, compared with integer arithmetic; distinct by inputs",
 note="the clock the library reads is replaced, so instants are exact")

prop("C16", "16-bit fixed-point arithmetic is exact to its resolution and saturates",
 "For all operands, fixed-point sum, difference, product, quotient, comparison and conversion from and to integers and reals equal the real-number result within one unit of the last place when it is representable (with floating-point operands of a product, quotient or comparison: within single precision), and clamp to the nearest bound when it is not; nothing wraps around. "
 "A real converted becomes the nearest representable value. Compound assignments give what the corresponding operators give, and comparisons agree with the real values.",
 ["inputs"], "all pairs of representable values, all integer, float and double operands",
 "F16Test evaluates a few sums of small numbers",
 ["F16.h"], [("32-bit value with 16 fraction bits","F16.h")], [("mV","scaled value","F16.h")], ["results as reals and as raw values"],
 rule="a case is one operand pair (bounds, powers of two and near-overflow weighted) through every operator, compared with long double arithmetic; distinct by operands",
 note="long double oracle", assumptions=["divisors are not zero, operands are not NaN"])

prop("C17", "Configuration reads return the latest set value, else the default",
 "For every history of sets, removes, reads and cache purges by any number of threads, a read of a key acts as if executed at one instant between call and return and gives the value last set (or removed) through this table: what was set for any text of key and value, the declared default if there is none, and a not-found error if there is neither. "
 "A change made by another process or table is seen at the latest 3 seconds after it, by every table independently; a set, remove or definedness test that reports success or failure tells the truth, also while another process locks the database; keys never affect each other.",
 ["schedules","histories","inputs"], "all operation histories over any number of tables, threads and outside writers, all key and value texts without NUL",
 "ConfigurationTest sets and reads a dozen plain keys with one thread and one table",
 ["Configuration.h","Configuration.cpp","sqlite3util.cpp"], [("cache under a mutex, write-through to sqlite, purge every 3 s","Configuration.cpp lookup, set, remove, checkCacheAge")], [("mCache","cached records","Configuration.h"),("CONFIG table","stored values","sqlite")], ["values read, database rows"],
 rule="a case is one random history over 1-3 tables and a raw database connection on a virtual clock (model), or one multi-thread history checked for linearizability per key; distinct by history",
 note="sequential model and linearizability search; staleness measured on a virtual clock",
 assumptions=["the system clock does not go backwards","keys and values contain no NUL"])

prop("C18", "Typed configuration getters return the stored value's meaning",
 "For every stored text the number, real, boolean, string, list-of-strings and list-of-numbers getters return exactly what the text denotes (decimal, hex and octal numbers, space-separated lists in order, with any number of spaces), a value set as a number reads back as that number, and a missing key without default raises the not-found error in every getter. "
 "Getting one type never changes what any other getter returns.",
 ["inputs"], "all texts and numbers, all getters in any order",
 "a few integers and one list are tried",
 ["Configuration.h","Configuration.cpp"], [("strtol/strtof on the cached record; strsep lists","Configuration.cpp ConfigurationRecord, getVector")], [], ["returned values"],
 rule="a case is one random text or number stored and read through every getter and compared with independent parsing; distinct by text",
 note="independent parser as oracle")

prop("C19", "Configuration validation accepts exactly the values of the declared type",
 "For every declared kind of key (boolean, choice, mask notation, file path, host and port, addresses, port, regular expression, string pattern, value range and the optional forms) a value is reported valid if and only if the whole text is a well-formed value of that kind within the declared choices, pattern or range. "
 "A key that was never declared has no valid values, and asking about it changes nothing.",
 ["inputs","configurations"], "all texts for all kinds and declarations",
 "ConfigurationTest checks a short list of values, most of them valid",
 ["Configuration.h","Configuration.cpp"], [("per-type parser","Configuration.cpp ConfigurationTable::isValidValue")], [], ["verdicts"],
 rule="a case is 60 (key, text) pairs, valid texts, near misses by mutation and boundaries, compared with an independent recogniser; distinct by pair",
 note="independent recognisers per type", assumptions=["value ranges have one interval without step enforcement"])

prop("C20", "Generated SQL, listings, searches and documents reproduce the schema",
 "Executing the generated default SQL in an empty database always succeeds and yields exactly one row per declared key with its default, static flag and description, and keeps existing values; listing all pairs and searching return exactly the stored keys and values that match (in either case of letters). "
 "The generated TeX and key descriptions mention every key once in the section of its visibility, with its text escaped, and each declared choice, range, default, unit and scope once; key lookup by substring returns exactly the matching keys.",
 ["inputs","configurations"], "all schemas with arbitrary names, defaults and descriptions, all stored contents and search texts",
 "the tests print the generated texts and never execute or compare them",
 ["Configuration.h","Configuration.cpp"], [("text generation from the schema map","Configuration.cpp getDefaultSQL, getTeX, find, getAllPairs, printDescription")], [], ["rows after executing the SQL; output texts"],
 rule="a case is one random schema and table contents; the SQL is executed by sqlite and compared row by row, texts are compared with a model; distinct by schema",
 note="sqlite itself executes the generated SQL")

prop("C30", "No memory error or undefined behaviour within the contracts",
 "No call of the library's interface that keeps to its documented contract, in any sequence and with any input, reads or writes outside live objects, reads uninitialised values, frees twice, or executes an operation undefined by the language. "
 "This covers containers, bit vectors, configuration, logging, reporting, encodings, strings, time, sockets and signals.",
 ["inputs","programs","histories"], "all in-contract inputs and call sequences",
 "the tests run uninstrumented on small inputs; an overrun of a buffer usually goes unnoticed",
 ["BitVector.cpp","Vector.h","Configuration.cpp","Logger.cpp","Utils.cpp","URLEncode.cpp","Sockets.cpp","Reporting.cpp","Timeval.cpp","Interthread.h","LinkedLists.h"], [("bounds arithmetic throughout","see files")], [], ["AddressSanitizer and UndefinedBehaviorSanitizer reports"],
 rule="a case is one case of a workload of another check, run for its sanitizer reports alone; distinct as in that workload",
 note="AddressSanitizer and UBSan abort on the first error; only executed paths are judged",
 assumptions=["left shift of negative values is taken as defined, as in C++20"])

prop("C31", "Concurrent use of thread-safe classes is free of data races",
 "Threads using the thread-safe parts of the library (queues, maps, semaphores, locks, reference counts, configuration tables, logging, console output, memory counters) as documented never access the same memory concurrently, with at least one write, without synchronisation. "
 "In particular nothing a thread wrote before handing an object over can be missed by the thread that receives it.",
 ["schedules"], "all interleavings of documented concurrent uses",
 "a race rarely changes a result; the tests run without a race detector",
 ["Interthread.h","Threads.h","Threads.cpp","Configuration.cpp","Logger.cpp","MemoryLeak.h","Reporting.cpp"], [("mutexes around shared state","see files")], [], ["ThreadSanitizer reports"],
 rule="a case is one concurrent case of another check's workload under ThreadSanitizer; distinct as there",
 note="happens-before race detection over sampled schedules with injected delays")

prop("C33", "Acknowledged configuration changes survive crashes and failed writes",
 "Once a set or remove of a configuration key has reported success, the change is found by every later opening of the database, even if the process is killed at any moment after, or at any file operation of a later change; a change interrupted by a crash is afterwards either completely there or not at all, and no other key is affected. "
 "If the file system refuses a write, sync or truncation at any point, the change is either made or reported as failed, and a reported failure leaves the old value readable.",
 ["crash_points","fault_sequences"], "every kill point and every single failing file operation in every history of changes",
 "no test kills the process or makes a write fail",
 ["Configuration.cpp","sqlite3util.cpp"], [("one sqlite transaction per change, result code propagated","Configuration.cpp set, remove; sqlite3util.cpp sqlite_command")], [("CONFIG table","stored values","sqlite file")], ["database contents on reopening after the kill or fault"],
 rule="a case is one random history killed at a chosen file operation, or with one failing file operation; distinct by history and point; non-trivial when the point was reached",
 note="kill points and fault points are drawn over all file operations of the history", level="fault_enumeration",
 assumptions=["process death, not power loss: the operating system keeps what was written"])

prop("C22", "Log levels: exactly the records the configuration asks for, and alarms kept",
 "A record logged at some level is passed on exactly once if its level is at or above the importance configured for its source file (the file's own setting if set and non-empty, else the general setting, else NOTICE) or for its log group, and not at all otherwise; a changed setting is in force after at most about a thousand further level lookups (groups: at their next update), and an unknown level name counts as the default and is replaced by it in the configuration. "
 "The record is passed to the system log with its level's priority and carries the level name, process, thread, time, source position and the complete message. "
 "Records of CRIT and more important are also echoed to standard error and kept in the alarm list, which always holds exactly the most recent ones, oldest first, up to the configured number; a watch message appears on the console exactly when the watch level in force asks for it.",
 ["configurations","histories","inputs"], "all level settings, files, groups and record sequences",
 "LogTest prints at each level for one setting and looks at nothing but the alarm list",
 ["Logger.cpp","Logger.h"], [("level cache over the configuration","Logger.cpp gGetLoggingLevel, lookupLevel2, LogGroup::setAll"),("record emitted in the destructor","Logger.cpp Log::~Log, addAlarm")], [("sLogCache","level per file","Logger.cpp"),("alarmsList","recent alarms","Logger.cpp")], ["records reaching syslog (interposed), standard error, alarm list"],
 rule="a case is a random sequence of setting changes and records from three files with and without a group, compared with a model; distinct by the trace",
 note="syslog is interposed in the harness, so every record passed on is seen")

prop("C23", "Log records reach the log file whole, in order and exactly once",
 "When a log file is configured every record passed on is in the file, complete with its line end and exactly once, when the logging call returns; records of several threads are never interleaved or lost, and each thread's are in its order. "
 "A log file starts afresh with an opening line when it is first opened, is opened only for programs that log to a file, and stays open unchanged when logging is initialised again; what goes to the console and the system log is the same text.",
 ["schedules","histories","inputs"], "all messages of any length and content without NUL, all interleavings of logging threads",
 "nothing reads the log file back",
 ["Logger.cpp","Logger.h"], [("one lock around writing and flushing a record","Logger.cpp Log::~Log")], [("gLogToFile","open log file","Logger.cpp")], ["file contents after each call; syslog"],
 rule="a case is a random sequence of records with the file read back after each, or several threads logging at once; distinct by contents or interleaving",
 note="the file is compared byte by byte with what reached the interposed syslog")

prop("C25", "Base64, hex and URL encodings are lossless and refuse damaged text",
 "For every byte string, encoding to base64 or hexadecimal gives the standard text (upper-case digits, '=' padding) and decoding it gives the bytes back, also with white space anywhere, either case of hexadecimal digits and missing padding; binary passes through; encoding names may be written in any case. "
 "Text with a character outside the alphabet, data after the terminator, an odd number of hexadecimal digits or an unknown encoding is always reported as an error. "
 "URL encoding leaves letters, digits and -_.!~'() alone and writes every other byte as % and two upper-case hexadecimal digits.",
 ["inputs"], "all byte strings of any length including NUL and bytes above 127, all texts",
 "the tests print one encoded sentence without checking it",
 ["Utils.cpp","Utils.h","URLEncode.cpp","URLEncode.h"], [("table driven coders","Utils.cpp base64EncodeToString, base64DecodeToString, hexDecodeToString; URLEncode.cpp")], [], ["encoded and decoded texts, error messages"],
 rule="a case is one byte string and encoding, with a white-space variant and a damaged variant; distinct by content",
 note="independent encoders as oracle; inputs are in exact-size heap blocks so overruns are seen")
prop("C26", "String utilities return exactly the text their definition says",
 "For all inputs, formatting returns the complete formatted text (up to 5000 characters, and 295 for the stream form, which marks truncation), splitting returns exactly the words between separators in order however many there are, replacement replaces each non-overlapping occurrence once and always ends, and scanning returns exactly the fields matched and leaves the others alone. "
 "First-lines, concatenation, number and time texts, greatest common divisor, nth word, aligned and tab-separated tables, and regular-expression matching likewise equal their definitions.",
 ["inputs"], "all texts within the documented limits (tables up to 30 columns and cells up to 200 characters)",
 "UtilsTest prints a few examples; lengths at internal buffer limits are never tried",
 ["Utils.cpp","Utils.h","Regexp.h"], [("fixed local buffer with a heap fallback","Utils.cpp format, format1"),("scanning loops","Utils.cpp cstrSplit, stringSplit, replaceAll, firstlines, printPrettyTable")], [], ["returned texts"],
 rule="a case is one input to one group of functions, lengths weighted around internal limits (199, 296, 5000), compared with independent implementations; distinct by input",
 note="independent implementations as oracle; exact-size heap inputs")
prop("C32", "Key-value texts and hashed strings behave as maps and strings",
 "After any sequence of additions of 'key=value' items or lists, looking a key up gives the value last added for it, as text or number, and reports absence (no value, not valid, or an exception naming the key) exactly when it was not added; items without '=' are ignored, values may contain '=', the text passed in is not changed and nothing leaks. "
 "Hashed strings with equal text are equal and hash alike however they were made, different texts practically never do, and exactly one of less, equal and greater holds.",
 ["inputs","histories"], "all item texts and sequences",
 "ConfigurationTest tries one list",
 ["Configuration.h","Configuration.cpp"], [("map keyed by hashed strings","Configuration.cpp SimpleKeyValue"),("running 64-bit hash","Configuration.cpp HashString::computeHash")], [("mMap","pairs","Configuration.h")], ["returned values, live allocations"],
 rule="a case is one random sequence of additions and look-ups compared with a plain map, or a pair of texts; distinct by content",
 note="reference map; leak accounting by live allocation counting")
prop("C34", "Scalar wrappers, bit sets, statistics and memory counters count correctly",
 "A self-initialising scalar or field starts at its declared value (zero if none) and under every assignment, increment, decrement and compound operation holds and returns what the underlying type would. "
 "Bit sets hold exactly the bits set and not cleared, statistics report the current, smallest, largest and mean of the points added, and memory counters report exactly the objects created, in whatever way and by however many threads, and those still alive.",
 ["programs","inputs"], "all operation sequences without overflow",
 "not tested at all",
 ["ScalarTypes.h","Utils.h","Utils.cpp","MemoryLeak.h"], [("operator macros","ScalarTypes.h"),("Statistic, BitSet","Utils.h"),("MemStats","Utils.cpp")], [], ["values after each operation"],
 rule="a case is a random operation sequence on every wrapper type compared with the underlying type; distinct by sequence",
 note="differential against the built-in types")

prop("C21", "Database lookups return exactly what is stored and fail cleanly",
 "For every table, key and value text (quotes, percent signs, any length) a lookup by text or number reports success exactly when a row with that key exists and then yields its stored text, number or columns; stepping through a query visits each matching row once, in order; attributes read back as last set, also after reopening, and commands report success exactly when they were carried out. "
 "While another connection holds the database, an operation succeeds if the database becomes free within the attempts asked for, and otherwise reports failure leaving results and database untouched. "
 "No operation leaves a statement open or changes anything it was not asked to change.",
 ["inputs","histories","faults"], "all tables, keys and values without NUL characters; all points at which a competing connection lets go of the database",
 "there is no test of these helpers; quoting, truncation and busy handling depend on the particular text and on another process's timing",
 ["sqlite3util.h","sqlite3util.cpp"], [("text put into SQL by hand, retry loops","sqlite3util.cpp")], [], ["results and return values","the database read independently"],
 rule="a case is one random table with a series of lookups, or one set of attributes, or a series of operations against a locked database; distinct by operation, key and outcome",
 note="model comparison; lock released after a chosen number of busy results seen at the sqlite boundary")
prop("C24", "Performance counters lose no increment and count none twice",
 "However many threads report, the stored value of a created counter after a commit is the number of increments made since it was created or last cleared, each counted exactly once, also when commits overlap with increments, other commits and clears, or when the database is locked for a while by somebody else; increments are stored by the periodic commit without being asked for. "
 "A maximum holds the largest value reported since it was created or cleared; creating an existing parameter changes nothing; clearing sets the value to zero with the time of clearing; names, whatever characters and length they have, and indexed names refer to exactly one parameter each. "
 "Stored values survive reopening, and operations which report failure changed nothing.",
 ["histories","schedules","faults","inputs"], "all sequences and interleavings of operations, parameter names, indices and periods during which the database is locked",
 "the test creates and increments a few counters and looks at nothing; losses need a lock or an interleaving at the moment of a commit",
 ["Reporting.h","Reporting.cpp","sqlite3util.cpp"], [("increments batched under a mutex and added by SQL UPDATE","Reporting.cpp ReportingTable::commit")], [("mBatch","increments not yet stored","Reporting.h")], ["rows of the report table read through another connection"],
 rule="a case is one random program of operations compared with a model, one concurrent run checked for conservation, or one run of the periodic committer; distinct by program or observed schedule",
 note="the committer's sleep is stepped by the harness; the lock is released after a chosen number of busy results",
 assumptions=["a counter is created before it is incremented","increments and maxima are not mixed on one parameter between commits"])

prop("C27", "Datagrams arrive intact at the address stated; waits and descriptors are kept",
 "Every datagram a UDP or Unix domain socket writes to its destination, sends to an explicit address or writes back to the most recent sender arrives unchanged (cut off only beyond the documented maximum) at the socket with that address and at no other, and each read yields one datagram with its length and sender, touching no byte of the buffer beyond it; the number of bytes sent is returned, failures by an error. "
 "A read with a timeout returns as soon as a datagram is there and with nothing only after its timeout, a non-blocking one at once, a blocking one not before there is a datagram; addresses of the form host:port resolve to that host and port. "
 "Closing, reopening and destroying sockets releases each descriptor exactly once and no other, for any descriptor number, and paths which do not fit are refused.",
 ["inputs","histories","schedules"], "all sequences of opening, addressing, sending, replying, reading and closing over several sockets, all datagram contents and lengths, one or several senders",
 "the socket test needs its messages watched by a person and is not built; double close, stale senders and high descriptors never occur in it",
 ["Sockets.h","Sockets.cpp"], [("sendto/recvfrom with saved destination and source addresses","Sockets.cpp DatagramSocket")], [("mSocketFD, mDestination, mSource","descriptor and addresses","Sockets.h")], ["bytes received, sources, open descriptors of the process"],
 rule="a case is one random program over several sockets compared with a model of per-socket queues, one timed or blocking wait, or one concurrent stream; distinct by program",
 note="loopback only; the build's config.h is a stand-in selecting the reentrant resolver; name lookups are limited to localhost and numeric addresses",
 assumptions=["the loopback delivers datagrams while receive buffers have room"])
prop("C28", "Signals run every registered handler once, then take their normal course",
 "When a signal arrives for which handlers were registered, each of its registered handlers runs exactly once per registration, in the order of registration, with that signal's number, and no handler of another signal runs; then the signal takes its default course, so that the process ends with that very signal unless the signal is one that is ignored by default. "
 "Signals without handlers keep their default course and numbers out of range are refused without effect. "
 "A core is requested, under the configured name, for exactly those handled signals that mean a crash, and the extra state is saved only if that was asked for.",
 ["histories","inputs"], "all sets of registrations, all signals that can be caught, handlers that raise the same or another signal",
 "the test raises one signal and prints; it is not built without the core dumper library",
 ["UnixSignal.h","UnixSignal.cpp"], [("per-signal handler lists run by one handler, which then restores the default and raises again","UnixSignal.cpp")], [("mListHandlers","registered handlers","UnixSignal.h")], ["calls recorded in shared memory, wait status of the process"],
 rule="a case is one child process with random registrations receiving a random signal; distinct by signal, expected calls and end",
 note="the core dumper is a stand-in and shell commands are recorded, never run; signals 32, 33 and those that stop a process are left out")
prop("C29", "Only one instance of a program runs, and its files are removed at its end",
 "A program that registers itself while another instance is registered ends with the exit code for this and leaves the other's pid file untouched; of any number of instances started at the same time exactly one continues; if the pid file cannot be created the program ends with the exit code for that. "
 "While the program runs, whatever signals it survives, its pid file exists and holds its process number; when it ends by exit or by a signal, the pid file and every file it registered are removed, and no other file.",
 ["schedules","histories"], "all program names, sets of registered files, ways of ending and interleavings of starts",
 "the test registers once; races between starting instances and behaviour on signals cannot be seen by it",
 ["SelfDetect.h","SelfDetect.cpp","UnixSignal.cpp","Exit.h"], [("pid file created at registration, removed in exit and signal handlers","SelfDetect.cpp")], [("mFile, mListFiles","files to remove","SelfDetect.h")], ["files in the run directory, exit status"],
 rule="a case is the life of one program (with a second instance in half of them) or a race of several starting at once; distinct by program, end and files",
 note="the run directory is redirected into a scratch directory by interposed file calls, so the real one is never touched",
 assumptions=["the program is not ended by a signal that cannot be caught"])
prop("C35", "Console messages of several threads come out whole, one line each",
 "However many threads write messages through the console output macros, to standard output and standard error in any mixture, every message comes out exactly once, complete, on a line of its own which begins with the time and the thread that wrote it, and no line contains parts of two messages. "
 "Messages of one thread keep their order, each is flushed when the macro ends, and a number base chosen inside one message does not change the next.",
 ["schedules","inputs"], "all interleavings of writing threads and message texts",
 "messages only mix under particular interleavings, and no test reads the console back",
 ["Threads.h","Threads.cpp"], [("one global lock taken before and released after each message","Threads.cpp lockCout, lockCerr")], [("gStreamLock","lock for both streams","Threads.cpp")], ["text reaching the two streams"],
 rule="a case is one set of threads writing random messages to streams which end in one recorder; distinct by observed order of synchronisation operations",
 note="the streams' buffers are replaced by a recorder which yields between characters; every line is matched with what its thread wrote",
 assumptions=["both streams are written only through the macros meanwhile"])
