CAUGHT = {}
NOTES = {
"C01": "`ArrayList.tla`: two lists as sequences; add, addAt, set, removeAt, removeElem, clone, copy, assign, constructors, queries, iteration. Invariants relate the queries to each other. Element types int, String.",
"C02": "`Vector.tla`: sequences with capacity (bounded slack, so that capacity is allowed to grow as documented but never below the size), capacityIncrement, setSize, removeRange, searches from an index, Stack push/pop/peek/search. The set of enumerated transitions is larger than the quick limit, so a seeded sample is replayed.",
"C03": "`LinkedList.tla`: deque over sequences, ownership of nodes after copies, node removal, illegal index and empty-list exceptions.",
"C04": "`HashMap.tla`: function from keys to values; put/putIfAbsent/putAll/replace/remove forms, iteration, equality, Map.Entry ordering.",
"C05": "`PriorityQueue.tla`: multiset; poll/peek must return a greatest element, ties free; removal of one occurrence, copies.",
"C06": "`BitSet.tla`: finite set of naturals; ranges around word boundaries (0, 63, 64, 127, 128 …), hash code and text computed by the specification.",
"C07": "`ConcMap.tla`/`ConcMapLin.tla`: linearizability of put/get/remove/replace/putIfAbsent/clear… on one map, several threads, keys colliding or not; plus single-threaded use with forEach, equality, copies.",
"C08": "`ConcQueue.tla`/`Lin`: FIFO per producer, each element once; poll may report absence only under the stated conditions (hence a linearization with 'another poll or clear in progress' as a named deviation).",
"C09": "`Semaphore.tla`/`Lin` with simulated time, `SemaphoreDesign.tla` (liveness: no waiter is stranded). Blocked calls in a terminal history must be justified by the final number of permits.",
"C10": "`ThreadLife.tla`/`Lin`, `ThreadLifeDesign.tla`: life cycle, repeated joins from several threads, timed joins under the simulated clock, visibility of what the task wrote.",
"C11": "`CharSeq.tla` (kind StringBuilder): text as a sequence of bytes; the capacity is a lower bound only. Gen covers every call from every text up to the bound at several initial capacities; random scripts use long texts, NUL and bytes above 127.",
"C12": "`CharSeq.tla` (kinds StringBuffer): as C11, with trimToSize/ensureCapacity and getValue (nothing beyond the length).",
"C13": "`SharedBuffer.tla`/`Lin`: atomicity of every StringBuffer operation, calls that read a second buffer in a step of its own, deadlock freedom of a.append(b) ‖ b.append(a).",
"C14": "`Str.tla` (Part 14): definition of each operation over sequences; receiver and argument projected after each call so that aliasing and modification show.",
"C15": "`Str.tla` (Part 15): order, equality, folding and the polynomial hash; hash taken before and after changes.",
"C16": "`Base64.tla`: encoder and decoder as functions on byte sequences with line length and separator as configuration; theorem: Decode(Encode(b)) = b in the model.",
"C17": "`UrlCode.tla`: percent-encoding and its inverse, encoding names.",
"C18": "`Digest.tla` + `Hash.tla`: MD5 and SHA-1 written in TLA+ (RFC 1321 / FIPS 180-4 over 16-bit limbs, evaluated by TLC), instance state = the bytes fed since the last reset; split updates around block boundaries, copies, illegal buffers.",
"C19": "`Num.tla` (Part 19) + `Bits.tla`: values are sequences of 16-bit limbs, so that 64-bit arithmetic is exact in TLC; numerals, parsing, decoding, wrapper arithmetic. Theorem RoundTrip in radices 2, 7, 8, 10, 16, 32.",
"C20": "`Num.tla` (Part 20): bit operations from their definition on the bit sequence; laws (Rev∘Rev = id, rotation inverse, pop counts) checked in the model.",
"C21": "`ExactMath.tla`: exact results over wider limbs, compared with representability; int and long.",
"C22": "`Rand.tla`: the 48-bit LCG in limbs, every draw function a number of steps and a function of the state; `RandShared.tla`/`Lin`: concurrent draws consume consecutive values.",
"C23": "`Uuid.tla`: text ↔ halves, fields, order, the time-based generator against a controlled clock (set back, standing still, adjustment overflow); `UuidShared.tla`/`Lin`: distinctness across threads.",
"C24": "`Calendar.tla` (days ↔ civil date, proved inverse in the model over day ranges; TZ rules) and `Dates.tla`: fields, setters with rollover, textual forms, several objects, zones UTC, +5:30, -8 and one with daylight saving.",
"C25": "`Media.tla`: parsing, text forms, compatibility (reflexive and symmetric as invariants of the model).",
"C26": "`Arrays.tla`: sort/search/fill/copy/equality/hash over arrays of all element kinds, every range of small arrays.",
}
NOTES["C27"] = "`Real.tla`: values are IEEE 754 patterns in 16-bit limbs; order key, hash, the correctly rounded decimal text (%.15f, six significant digits) and the nearest-value relation between numerals and patterns are computed with exact big integers in the specification. Gen covers special values and their neighbours; random scripts use subnormals, ties and half-way numerals."
NOTES["C28"] = "`RealMath.tla` (on `RealBase.tla`, shared with Real): each function as arithmetic on exact big integers; round, scalb, sqrt and IEEERemainder are judged relations (sqrt by comparing squares of the half-way points, scalb by one rounding, the remainder exactly). Theorems: neighbours and ulp agree with subtraction, rounding brackets, known squares and remainders. Pinned by tests and kept: IEEERemainder(x, infinity) = NaN, Float.MIN_VALUE/MIN_NORMAL exchanged, nextDown(0.0f) = -Float.MIN_VALUE (either that or the true neighbour is accepted). Remainders with quotients beyond 2^270 and the transcendental functions are left out."
NOTES["C29"] = "`Exceptions.tla`: a forest of 26 classes (`Parent`), slots holding [class, text, cause]. `raise` throws a copy of the slot's object at a handler for every class in turn (26 x 26 pairs in the generator) and compares what the handler saw; the driver has each class as a real C++ type, so the handler is chosen by C++'s own matching. Theorem: the classes form one tree rooted in Throwable."
NOTES["C30"] = "`Formats.tla` on `Calendar.tla` (shared with Dates; proleptic Gregorian calendar, five zones with their daylight saving rules): 32 elementary strftime conversions and 8 composite ones (expanded by `Longer`), ISO weeks by their Thursday. `local` reads a Date's fields, which must be those of the process's zone, so formatting that leaks TZ is seen; the driver also compares TZ before and after. Locale C only; SimpleDateFormat is not thread-safe here (as in Java), so schedules are not explored."
NOTES["C31"] = "`ArrayObj.tla`: two sequences; the driver runs every script with int, String and Array<int> elements, so elements read after their storage is gone or past the end are seen."
NOTES["C32"] = "`Values.tla`: one module with a kind per class. Negative ordinals and arrays holding surrogates (whose constants the tests pin to other values) are left out."
NOTES["C33"] = "`Printf.tla` on `RealBase.tla`: a scanner for directives (the regular expression as a predicate), the C rules for integers over limbs, and exact decimal rounding of doubles (big integers, ties to even) for f, e and g. Theorems: %.15f is the Double text of C27, 17 significant digits identify a double, %d is the decimal numeral, widths are reached. The generator enumerates flags x widths x precisions x conversions x values; the driver has the 20 argument types and up to three arguments in one call. Left out: conversions that do not suit their argument (undefined in C), %n %p %a, and `#` with %g (glibc itself drops the zeros when rounding carries: printf(\"%#g\", 999999.5) gives 1.e+06)."
NOTES["C34"] = "`Launch.tla`: the environment as a function, and Application's outcome as a function of what the program does (10 kinds of ending). The driver reads what reached file descriptor 1 before anything else flushes, and exit runs in a forked child."
NOTES["C35"] = "`Heap.tla`: the marks taken while one history is run six times in one process (each time on new objects, after the objects of the run before are gone); a history whose marks grow at every run after the second is rejected. `HeapModel.tla` shows, over a program of objects that own blocks and caches that are filled once, that this tells a loss from a cache in both directions (HeapMC0: nothing lost, never growing; HeapMC1: a block lost in each run, always growing). The histories are those of the random generators of C01 to C34; the driver counts blocks with the address sanitizer's allocation hooks while the code under test runs."
NOTES["C36"] = "`Apart.tla`: what each call returned when nothing else ran is its only answer when a second thread works on other objects; `ApartDesign.tla` shows on a model of calls that pass a value through a shared or a private cell, step by step, that exactly the private ones (and caches that are filled with the one right answer) satisfy it. Drivers: those of C01 to C33, compiled with `apart.hpp` in front, under the cooperative scheduler, whose `sta` plans preempt around accesses to writable static storage. Left out: SimpleDateFormat and the environment (they set TZ for the process), UUID.randomUUID, and races inside the C library, whose calls are single steps."
OPEN = """
* The file classes (File, streams), Process/system classes and sockets are thin wrappers with little state and with effects outside the process; they are not specified.
* The accuracy of Math's transcendental functions (sin, exp, pow, ...) has no exact specification here; the exactly defined ones are C28.
* Defects noticed in code no property covers, left as they are: Set.contains, remove and others are stubs; ConcurrentHashMap.equals/clone and Enum.clone do not compile when used; ConcurrentLinkedQueue.contains is a stub; URL(String) parses nothing; a Thread object destroyed while its thread runs is used after it is freed; Arrays.hashCode(Array<Object>) slices its elements; Character's surrogate constants are multi-character literals (the tests pin their values); Float.MIN_VALUE and MIN_NORMAL are exchanged (pinned).
"""
