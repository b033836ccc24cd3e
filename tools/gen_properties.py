#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is edited in one place)."""
import json, os
L = "library/Java/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "ArrayList behaves as a mathematical sequence under every history",
  "After any history of appends, insertions at an index, replacements, removals (by index or by element), clears, copies and assignments, an ArrayList holds exactly the elements, in exactly the order, that a mathematical sequence treated the same way would hold. Size, emptiness, get, contains, indexOf, lastIndexOf, iteration, forEach and toArray all report that same sequence. An index outside the legal range is refused with an index exception (or, where the API documents no exception, ignored) and changes nothing.",
  ["histories", "inputs"], "all finite histories of list operations over any element values and any index, in or out of range, on lists and on copies of them",
  "Tests run a dozen fixed scripts on short lists with in-range indexes and mostly check size(); the guarantee ranges over every interleaving of mutators and every index including 0, size-1, size and beyond.",
  [L+"Util/ArrayList/ArrayList.hpp"], [("backing vector plus index checks", L+"Util/ArrayList/ArrayList.hpp: add/set/remove/get")], ["public ArrayList API return values and exceptions", "full contents read back with get() and iteration after each call"])

p("C02", "Vector and Stack behave as sequences; Stack is last-in first-out",
  "After any history of element additions, insertions, replacements, removals, range removals, resizes, copies and assignments, a Vector holds exactly the sequence a mathematical sequence treated the same way would hold, its capacity is never below its size, and every query (element access, first/last element, searches from an index, equality) reports that sequence. An illegal index or an access to an empty vector raises the documented exception and changes nothing. On a Stack, push/peek/pop are last-in first-out, search reports the position of the sought element's last occurrence (or -1), and pop/peek of an empty stack raise EmptyStackException.",
  ["histories", "inputs"], "all finite histories of Vector/Stack operations over any values, indexes, capacities and capacity increments",
  "Tests exercise each method once or twice on a 2-5 element vector; growth and capacity accounting, insertion at both ends, and combinations after removals or resizing are not reached.",
  [L+"Util/Vector/Vector.hpp", L+"Util/Stack/Stack.hpp"], [("manual array with capacity growth", L+"Util/Vector/Vector.hpp: ensureCapacity*, insertElementAt, removeElementAt, setSize")], ["public Vector and Stack API"])

p("C03", "LinkedList behaves as a sequence, a queue and a deque",
  "After any history of additions and removals at either end or at an index, bulk additions, removals by element, clears and copies, a LinkedList holds exactly the elements, in order, of a mathematical double-ended sequence treated the same way; peek/poll/get/remove/pop/push and the First/Last variants act on the correct end. On an empty list, every accessor of an end (peek, poll, pop, element, get and remove forms) raises NoSuchElementException; element access by an illegal index is refused, leaving the list unchanged.",
  ["histories", "inputs"], "all finite histories of list and deque operations, values and indexes",
  "Tests call each method on a list of two or three strings; they never interleave both ends, never drain to empty and refill, and never probe illegal indexes.",
  [L+"Util/LinkedList/LinkedList.hpp"], [("doubly linked std::list and index walk", L+"Util/LinkedList/LinkedList.hpp")], ["public LinkedList API"])

p("C04", "HashMap behaves as a finite function from keys to values",
  "After any history of put, putIfAbsent, putAll, replace, remove (by key, or by key and value), clear, copy and assignment, a HashMap holds exactly one value per key: the one most recently stored for it. get, getOrDefault, containsKey, containsValue, size, isEmpty, equality and iteration (entry set, key set, values, forEach) all report that same function, each key appearing once. putIfAbsent, remove and replace report the value previously held (the default value if there was none).",
  ["histories", "inputs"], "all finite histories of map operations over any keys and values, including overwriting and re-inserting removed keys",
  "Tests insert distinct keys into a fresh map and read them back; overwriting, conditional replacement after removal, equality of maps with different key sets and copies are barely sampled.",
  [L+"Util/HashMap/HashMap.hpp", L+"Util/Map/Map.hpp"], [("wrapped std::unordered_map", L+"Util/HashMap/HashMap.hpp: put/remove/replace")], ["public HashMap API", "contents read back over the whole key universe after each call"])

p("C05", "PriorityQueue always yields its elements in priority order",
  "At every point of every history of add, offer, poll, peek, remove, clear, copy and assignment, a PriorityQueue holds exactly the multiset of elements inserted and not yet removed, and peek/poll return an element of highest priority (the greatest) among those held. Removing an arbitrary element removes exactly one occurrence and does not disturb the order in which the rest come out; polling or peeking an empty queue yields the default element and does not corrupt it.",
  ["histories", "inputs"], "all finite histories of queue operations over any element values with duplicates, any size",
  "Tests add a few ordered values and poll once or twice; heap-order damage after removing an interior element, duplicates and drain/refill are not reached.",
  [L+"Util/PriorityQueue/PriorityQueue.hpp"], [("binary heap over a vector", L+"Util/PriorityQueue/PriorityQueue.hpp")], ["public PriorityQueue API", "drain order of a copy"])

p("C06", "BitSet behaves as a finite set of non-negative integers",
  "After any history of set/clear/flip on single bits and ranges, and/or/xor/andNot with other bit sets, copies and assignments, a BitSet denotes exactly the set of indexes a mathematical set treated the same way would contain; get, range get, cardinality, length, isEmpty, intersects, next/previous set/clear bit, equality, hash code and string form all report that set, whatever the internal word count. Range operations are half-open [from, to) for every position relative to word boundaries, and negative or inverted ranges are refused without effect.",
  ["histories", "inputs"], "all finite histories of bit-set operations over all indexes, including word boundaries, and pairs of sets of different sizes",
  "Tests use a few fixed indexes; the space of ranges straddling 64-bit word boundaries, sets of different word lengths, and shrink/regrow histories is not sampled.",
  [L+"Util/BitSet/BitSet.cpp", L+"Util/BitSet/BitSet.hpp"], [("64-bit word vector with wordsInUse trimming", L+"Util/BitSet/BitSet.cpp: expandTo, recalculateWordsInUse, set/clear/flip ranges")], ["public BitSet API"])

p("C07", "ConcurrentHashMap is a linearizable map",
  "Every concurrent history of put, get, containsKey, remove and replace (by key, or by key and value), putIfAbsent, getOrDefault and clear, and of size and emptiness while no other call is in progress, on one ConcurrentHashMap is equivalent to some sequential execution of the same calls on a finite map that respects real-time order. In particular no update is lost, two removals never both obtain the same insertion, and no thread observes a value never stored for that key. Absence is reported as the default value. Used from a single thread it behaves as a finite function, forEach and containsValue included.",
  ["schedules", "histories", "inputs"], "all interleavings of any number of threads operating on the same map, over any keys and values",
  "The tests of this class are single-threaded; atomicity of read-modify-write calls needs particular interleavings.",
  [L+"Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"], [("per-bucket locks of the cuckoo map", L+"Util/Concurrent/ConcurrentHashMap/libcuckoo")], ["call/return history of public API calls"])

p("C08", "ConcurrentLinkedQueue delivers every element exactly once, in order",
  "Every element added (add, offer) to a ConcurrentLinkedQueue is returned by at most one poll and, once producers have finished, by exactly one poll if the queue is drained; elements added by one thread come out in the order that thread added them, and used from one thread the queue is first-in first-out with exact size and emptiness. A poll reports absence only if the queue was empty at some moment of the call or another poll or clear was in progress; clear removes what was there. No element is ever returned that was not added.",
  ["schedules", "histories"], "all interleavings of any number of producers and consumers, and all single-threaded histories",
  "Tests are single-threaded with four elements; loss or duplication needs interleavings of producers and consumers and enough elements to cross internal block boundaries.",
  [L+"Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp"], [("lock-free queue with implicit producers", L+"Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp")], ["call/return history of public API calls"])

p("C09", "Semaphore conserves permits and never strands a waiter",
  "At every moment of every execution, permits held plus permits available equal the initial permits plus those released beyond acquisition; availablePermits is never negative unless so initialised, and acquire(n)/tryAcquire(n) take all n permits or none (n and timeouts being non-negative). An acquirer blocks only while too few permits are available for it: once enough permits are available and nobody competes for them, every blocked acquire or untimed wait completes. A timed tryAcquire returns true only if it took the permits and false only if its whole timeout elapsed; an untimed tryAcquire never blocks.",
  ["schedules", "histories", "inputs"], "all interleavings of threads acquiring and releasing any permit counts, with all timeout expiries",
  "The semaphore tests are timing-dependent, not in the stable list, and exercise one schedule; lost wake-ups and partial acquisition need specific interleavings.",
  [L+"Util/Concurrent/Semaphore/Semaphore.cpp", L+"Util/Concurrent/Semaphore/Semaphore.hpp"], [("mutex + condition variable around a permit counter", L+"Util/Concurrent/Semaphore/Semaphore.cpp")], ["call/return history, availablePermits at quiescence, blocked threads at quiescence"])

p("C10", "Thread runs its task exactly once and join waits for it",
  "A started Thread runs its task exactly once, on a thread other than the starter's, and never before start() is called; join() returns only after the task has finished (or, with a timeout, once the timeout elapsed), can be called repeatedly and from several threads, and everything the task wrote is visible afterwards. isAlive() is false before start and after join has returned, and true while the task is running; names and ids are kept per thread, and starting a thread again has no effect.",
  ["schedules", "histories"], "all interleavings of starting, running, joining and querying any number of threads",
  "Thread tests are not in the stable list and use sleeps; join/isAlive races need particular interleavings.",
  [L+"Lang/Thread/Thread.cpp", L+"Lang/Thread/Thread.hpp"], [("alive flag and join semaphore", L+"Lang/Thread/Thread.cpp: run/start/join")], ["call/return history and task-side events"])

p("C11", "StringBuilder edits are exactly sequence edits",
  "After any history of append, insert, delete, deleteCharAt, replace, reverse, setCharAt, setLength, capacity changes, copies and assignments, a StringBuilder's length and characters are exactly those of a character sequence edited the same way, whatever its capacity was. charAt, indexOf, lastIndexOf, substring and toString report that sequence (toString up to its first NUL), and an illegal index or range raises an index exception and changes nothing.",
  ["histories", "inputs"], "all finite histories of edits over any strings, indexes, ranges and capacities",
  "Tests apply one edit to a fixed short string; overlap, growth across capacity boundaries, self-overlapping search patterns and long edit histories are not reached.",
  [L+"Lang/StringBuilder/StringBuilder.cpp", L+"Lang/StringBuilder/StringBuilder.hpp"], [("growable char array, KMP search", L+"Lang/StringBuilder/StringBuilder.cpp")], ["public StringBuilder API"])

p("C12", "StringBuffer edits are exactly sequence edits",
  "After any history of append, insert, deletes, deleteCharAt, replace, reverse, setCharAt, setLength, ensureCapacity, trimToSize, copies and assignments, a StringBuffer's length and characters are exactly those of a character sequence edited the same way, whatever its capacity was. charAt, indexOf, lastIndexOf, subString, getValue and toString report exactly that sequence (nothing beyond its length), and an illegal index or range raises an index exception and changes nothing.",
  ["histories", "inputs"], "all finite histories of edits over any strings, indexes, ranges and capacities",
  "Tests apply one edit to a fixed short string with spare capacity; stale bytes after deletion, exact-capacity contents and replace with a different length are not reached.",
  [L+"Lang/StringBuffer/StringBuffer.cpp", L+"Lang/StringBuffer/StringBuffer.hpp"], [("growable char array and memmove edits", L+"Lang/StringBuffer/StringBuffer.cpp: StringBufferUnSafe")], ["public StringBuffer API"])

p("C13", "StringBuffer operations are atomic under concurrent use",
  "Every concurrent history of edits and reads on one shared StringBuffer (append, insert, delete, replace, reverse, setCharAt, setLength, length, toString, charAt, capacity operations) is equivalent to some sequential order of the same calls respecting real-time order (a call that is given a second buffer reads that one atomically, in a step of its own). In particular no concurrently appended text is lost, torn or duplicated, and no call can deadlock.",
  ["schedules", "histories"], "all interleavings of any number of threads calling any StringBuffer operations on one object",
  "All StringBuffer tests are single-threaded, so removing a lock changes no test result.",
  [L+"Lang/StringBuffer/StringBuffer.cpp"], [("one mutex per buffer taken by each public call", L+"Lang/StringBuffer/StringBuffer.cpp: StringBuffer::*")], ["call/return history of public API calls"])

p("C14", "String operations agree with sequence-theoretic definitions",
  "For every string and argument, charAt, length, indexOf/lastIndexOf (character or substring, with or without a start index), contains, startsWith/endsWith, subString, concatenation, replace/replaceAll/replaceFirst of literal text, trim, ASCII case conversion, join/split on a delimiter, regionMatches and conversion to and from character arrays return what their definition over character sequences gives (searching for the empty text is left open, and so is a lastIndexOf whose start lies within the pattern's length of the end). None of them modifies the receiver, results never alias it, and an illegal index is refused with an exception (regionMatches: false) rather than read.",
  ["inputs", "histories"], "all strings (including empty, one-character, repeated and self-overlapping patterns) and all integer arguments",
  "Tests give one or two examples per method; boundary positions, empty operands, overlapping patterns and repeated matches are infinite families.",
  [L+"Lang/String/String.cpp", L+"Lang/String/String.hpp"], [("std::string-backed search and slicing", L+"Lang/String/String.cpp")], ["public String API"])

p("C15", "Equality, ordering and hashing of strings are coherent",
  "For all strings, equals, ==, !=, compareTo, compareToIgnoreCase, equalsIgnoreCase and <,>,<=,>= agree with lexicographic comparison, byte by byte, of their current contents (ASCII letters folded for the ignore-case forms; antisymmetric, transitive, zero exactly for equal contents), and equal strings always have equal hash codes, namely the polynomial hash (base 31, modulo 2^32) of the current contents. This continues to hold after a string has been assigned, appended to or otherwise changed, however often its hash was taken before.",
  ["inputs", "histories"], "all pairs and triples of strings and all histories of hashing, assignment and in-place concatenation",
  "Tests compare a few fixed pairs and never hash, mutate and hash again.",
  [L+"Lang/String/String.cpp"], [("cached hash and strcmp comparison", L+"Lang/String/String.cpp: hashCode, compareTo, operators")], ["public String API"])

p("C16", "Base64 encoding round-trips and rejects malformed input",
  "For every byte sequence and each of the basic, URL-safe and MIME variants, with and without padding, encoding yields exactly the RFC 4648/2045 text (alphabet, padding, line breaks at the configured length with the configured separator and none at the end), and decoding that text returns the original bytes. Decoding text that is not a legal encoding (foreign characters, wrong padding, an incomplete last group) raises IllegalArgumentException for the basic and URL variants, while the MIME decoder ignores characters outside its alphabet. A target buffer that is too small is refused and left untouched.",
  ["inputs", "configurations"], "all byte sequences, all encoder/decoder variants and line-length settings, and all malformed texts",
  "Tests encode and decode a few fixed sentences; every length modulo 3, every byte value, line-boundary lengths and malformed endings are not sampled.",
  [L+"Util/Base64/Base64.cpp", L+"Util/Base64/Base64.hpp"], [("table-driven 3-byte/4-char codec", L+"Util/Base64/Base64.cpp")], ["public Base64 API"])

p("C17", "URL encoding round-trips and is well formed",
  "For every string, URLEncoder leaves only letters, digits, '-', '_', '.', '~' (and the other unreserved marks it documents) unchanged, turns a space into '+', and every other byte into '%' followed by exactly two hexadecimal digits of that byte; URLDecoder inverts it exactly, also when the hexadecimal digits are in lower case. An encoding name other than UTF-8 (in any letter case) raises UnsupportedEncodingException.",
  ["inputs"], "all byte strings (all byte values, all lengths) and encoding names",
  "Tests use a few fixed strings; all 255 byte values, sign-extension of high bytes and truncated escapes are not covered.",
  [L+"Net/URLEncoder/URLEncoder.cpp", L+"Net/URLDecoder/URLDecoder.cpp"], [("percent encoding loop", L+"Net/URLEncoder/URLEncoder.cpp: urlEncode"), ("percent decoding loop", L+"Net/URLDecoder/URLDecoder.cpp: urlDecode")], ["public URLEncoder/URLDecoder API"])

p("C18", "MessageDigest depends only on the bytes fed since the last reset",
  "For MD5 and SHA1 and every message, the digest equals the standard MD5/SHA-1 function of the concatenation of all bytes passed to update since creation or the last reset, however those bytes were split into calls. Reset restores the initial state at any point, asking for the digest again without further updates returns the same value, and buffers that are missing or too small, as well as empty or missing input, are refused without changing the digest. Digests of separate instances and copies never influence each other.",
  ["inputs", "histories"], "all messages of any length, all ways of splitting them into updates, and all interleavings of update/digest/reset on several instances",
  "Tests digest a handful of fixed messages in one or two updates; padding depends on length modulo 64 and chunk buffering on every split position.",
  [L+"Security/MessageDigest/MessageDigest.cpp", L+"Security/MessageDigest/md5.cpp", L+"Security/MessageDigest/sha1.cpp", L+"Security/MessageDigest/MD5MessageDigest.cpp", L+"Security/MessageDigest/SHA1MessageDigest.cpp"], [("block buffering and padding", L+"Security/MessageDigest/md5.cpp: md5_append/md5_finish; sha1.cpp: SHA1Update/SHA1Final")], ["public MessageDigest API"])

p("C19", "Integer types convert to and from text exactly",
  "For Integer, Long, Short and Bytes (an unsigned byte) and every value, formatting (decimal, and hexadecimal/octal/binary as the two's complement pattern) yields the canonical numeral, and parsing or decoding a legal numeral in the supported radices returns its value. Every text that is not a legal numeral, or whose value is out of range for the type, is refused: NumberFormatException for Integer, Short and Bytes, the value -1 for Long. Wrappers convert to short, int and long by keeping the low bits or extending the sign, and to float and double by rounding to nearest. A wrapper's string form always reflects its current value, also after arithmetic assignment.",
  ["inputs", "histories"], "all values of each type, all radices, all input texts (empty, signs only, embedded blanks, trailing garbage, just out of range), all operator histories",
  "Tests parse and print a few values; range edges, malformed texts and stale string forms after operators form infinite families.",
  [L+"Lang/Integer/Integer.cpp", L+"Lang/Long/Long.cpp", L+"Lang/Short/Short.cpp", L+"Lang/Bytes/Bytes.cpp"], [("parse/format routines", L+"Lang/Integer/Integer.cpp: parseInt, toString; Long.cpp: parseLong, toString")], ["public Integer/Long/Short/Bytes API"])

p("C20", "Integer and Long bit operations follow their two's complement definitions",
  "For every 32-bit and 64-bit value (and every shift distance), bitCount, highestOneBit, lowestOneBit, numberOfLeadingZeros, numberOfTrailingZeros, reverse, reverseBytes, rotateLeft, rotateRight, signum, compare and the unsigned comparison and division return exactly what their definition on the two's complement bit sequence gives, including for zero, negative values and the minimum value. Wrapper comparison and equality operators agree with the numeric order.",
  ["inputs"], "all 2^32 / 2^64 values and all shift distances including negative and beyond the word width",
  "Tests use a few positive constants; sign extension and the extreme values are not covered.",
  [L+"Lang/Integer/Integer.cpp", L+"Lang/Long/Long.cpp"], [("bit-twiddling routines", L+"Lang/Integer/Integer.cpp, "+L+"Lang/Long/Long.cpp")], ["public static API"])

p("C21", "Exact arithmetic either returns the true result or raises",
  "For every pair of int or long arguments, addExact, subtractExact, multiplyExact, incrementExact, decrementExact, negateExact and toIntExact return the mathematically exact result when it is representable and raise ArithmeticException otherwise. floorDiv and floorMod satisfy a = floorDiv(a,b)*b + floorMod(a,b) with the remainder zero or of the divisor's sign, and raise ArithmeticException for divisor zero; abs, max and min agree with the numeric order (only the minimum value has no absolute value and is returned as it is).",
  ["inputs"], "all pairs of 32-bit and 64-bit integers",
  "Tests check a few overflows in one direction; both overflow directions, sign combinations and products that wrap to plausible values are not sampled.",
  [L+"Lang/Math/Math.cpp"], [("overflow predicates", L+"Lang/Math/Math.cpp: *Exact, floorDiv, floorMod")], ["public Math API"])

p("C22", "Random is a deterministic, atomic linear congruential generator",
  "Two Random objects with the same seed (or a copy and its original) produce the same sequence for the same calls, namely that of the documented 48-bit linear congruential generator; setSeed restarts that sequence. Bounded results always lie in [0, bound), real results in [0, 1), and a non-positive bound is refused with InterruptedException; a Gaussian draw is a function of the generator's state. When several threads draw from one generator, the values drawn are exactly the next values of the sequence, none repeated or skipped.",
  ["inputs", "histories", "schedules"], "all seeds, all call sequences, all bounds, and all interleavings of threads sharing a generator",
  "Tests print values or check a few draws for one seed; rejection sampling near power-of-two bounds and concurrent draws are not covered.",
  [L+"Util/Random/Random.cpp"], [("compare-and-swap of the 48-bit seed", L+"Util/Random/Random.cpp: next")], ["public Random API"])

p("C23", "UUID text, fields, order and identity are mutually consistent",
  "For every 128-bit value, a UUID's string is the canonical 8-4-4-4-12 lower-case hexadecimal form of its two halves and parsing that string (in either letter case) returns an equal UUID, while text that is not five groups of hexadecimal digits of at most those lengths is refused with IllegalArgumentException; equals, compareTo and hashCode are coherent and determined by the two halves. version and variant report the corresponding bits; every randomly generated UUID has version 4 and every time-based one version 1 with the IETF variant, and all generated UUIDs are distinct, also when they are generated faster than the clock ticks, after the clock was set back, or by several threads.",
  ["inputs", "histories", "schedules"], "all pairs of 64-bit halves, all texts, and all generated identifiers under all clock readings and thread interleavings",
  "Tests use a few constants; halves with the sign bit set and leading zeros are not sampled.",
  [L+"Util/UUID/UUID.cpp", L+"Util/UUID/libuuid"], [("digit formatting and field masks", L+"Util/UUID/UUID.cpp")], ["public UUID API"])

p("C24", "Date fields, instants and order agree with the calendar",
  "For every instant in the supported range (whole seconds), a Date's year, month, day, weekday and time fields are those of the proleptic Gregorian calendar in the current zone, constructing a Date from fields (also out-of-range ones, which roll over) gives the instant those fields denote, and setting one field leaves the rest as calendar arithmetic dictates. This holds in every zone, also across daylight saving time. before, after, equals, compareTo and hashCode agree with the order of instants; several Date objects, copies included, are independent; parsing a date's textual forms returns the instant they denote.",
  ["inputs", "histories"], "all instants, all field values (in and out of range), and all histories over several Date objects",
  "Tests use a handful of dates one at a time; leap years, month rollover, negative instants and the independence of simultaneous Date objects are not sampled.",
  [L+"Util/Date/Date.cpp", L+"Util/Date/Date.hpp"], [("broken-down time and mktime normalisation", L+"Util/Date/Date.cpp")], ["public Date API"])

p("C25", "MediaType parsing, wildcards and compatibility are consistent",
  "Every text of the form type/subtype (optionally surrounded by blanks and followed by ';' and parameters) parses to a MediaType with exactly that type and subtype, whose string form parses back to an equal type and subtype; a media type built from parts keeps exactly its type, subtype and parameters through copies and assignments; texts that are empty, lack a slash or a subtype, or use a wildcard type with a concrete subtype are refused with MediaTypeException. Compatibility is reflexive and symmetric: two media types are compatible exactly when their types match (or one is a wildcard) and their subtypes match, one is a wildcard, or one is a suffix wildcard matching the other's suffix.",
  ["inputs"], "all type/subtype texts, wildcards and suffix forms, and all pairs of media types",
  "Tests check a few pairs in one direction; symmetry and suffix wildcards quantify over all pairs.",
  ["library/Javax/Ws/Rs/Core/MediaType.cpp"], [("wildcard predicates", "library/Javax/Ws/Rs/Core/MediaType.cpp: isCompatible, valueOf")], ["public MediaType API"])

p("C26", "Arrays utilities sort, search, copy, fill, compare and hash correctly",
  "For every array and every legal range (ranges of sort, search and fill include both ends), sort leaves a permutation of the range in non-decreasing order and nothing outside it changed; binary search on a sorted range returns an index of the key within the range when it is present there and -1 otherwise; copyOf returns the prefix, padded with the element type's default value, and copyOfRange returns exactly the elements of [from, to) for every 0 <= from <= to <= length, and an empty array for any other range; neither touches the source. fill changes exactly the range and nothing for an illegal one, equality holds exactly for equal lengths and elements, hashCode of a non-empty integer or boolean array is the polynomial 31*h + element hash, and equal arrays hash equally. Array itself keeps its elements in order through construction, push, +=, indexing (refused outside the array), iteration and copying.",
  ["inputs"], "all arrays (including empty, single-element, duplicates, already sorted and reversed), ranges and keys",
  "Tests use a few small arrays; single-element ranges, duplicates at range ends and keys outside the range are not sampled.",
  [L+"Util/Arrays/Arrays.hpp"], [("quick sort and binary search templates", L+"Util/Arrays/Arrays.hpp")], ["public Arrays API"])

p("C27", "Float and Double keep, order, convert and print their values exactly",
  "For every bit pattern, a Float or Double object keeps exactly the value it was given through copies and assignments, and its arithmetic and compound assignment operators compute the value and change only their left operand (compound assignment changes it). ==, <, compare, compareTo, equals and hashCode agree on one total order: numbers by value, both zeros equal, NaN equal to itself and above everything; min returns the lesser operand. floatToIntBits and doubleToLongBits (raw forms included) are the magnitude's IEEE 754 bits, negated for negative values, 0 for both zeros and all ones for NaN, also for subnormal, huge and infinite values; longBitsToDouble inverts the latter and intBitsToFloat takes IEEE bits; isNaN, isInfinite and isFinite classify every value. The text of a Double is the value correctly rounded to 15 decimals and of a Float six significant digits in the shorter notation, whichever way the object got its value; parsing any decimal numeral gives the nearest value (ties to even), and text that is not a numeral is refused with NumberFormatException.",
  ["inputs", "histories"], "all bit patterns, all numerals and other texts, and all histories over several objects",
  "Tests compare a dozen hand-picked constants; subnormals, values beyond 2^31, half-way numerals, and the text after assignments are not sampled.",
  [L+"Lang/Float/Float.cpp", L+"Lang/Double/Double.cpp"], [("conversion between values and bits", L+"Lang/Float/Float.cpp: floatToIntBits; "+L+"Lang/Double/Double.cpp: doubleToLongBits, longBitsToDouble"), ("text cached at every change", L+"Lang/Double/Double.cpp: operator=")], ["public Float and Double API"])

p("C28", "Math's exact functions agree with IEEE 754 on every float and double",
  "For every float and double, subnormal, huge and infinite ones and NaN included: floor, ceil and rint return the neighbouring integer (rint to even on ties) with the sign kept; round returns a closest integer (either one on a tie), limited to the range of the result and 0 for NaN; nextUp, nextDown and nextAfter return the adjacent value; ulp is the gap to the next larger magnitude; getExponent is the unbiased exponent, with one reserved value for zero and subnormals and one for infinities and NaN; scalb is the value times 2^n rounded once; copySign and signum honour the sign of zero; abs clears the sign; max and min return the greater and lesser operand; sqrt is correctly rounded; IEEERemainder is the exact remainder to the nearest multiple (NaN for an infinite or zero divisor). Double.MIN_VALUE, MIN_NORMAL and MAX_VALUE are the ends of the representable range.",
  ["inputs"], "all bit patterns of one or two operands and all scale factors",
  "Tests evaluate a few ordinary numbers and compare approximately; ties, subnormals, neighbours of powers of two and overflow are not sampled.",
  [L+"Lang/Math/Math.cpp"], [("exponent and ulp from the bits", L+"Lang/Math/Math.cpp: getExponent, ulp, powerOfTwoD, powerOfTwoF"), ("clamped rounding", L+"Lang/Math/Math.cpp: round")], ["Math.floor", "Math.round", "Math.ulp", "Math.scalb", "Math.IEEERemainder"])

p("C29", "Exceptions keep message and cause and are caught by their ancestor classes",
  "An exception object carries exactly the message and the cause it was made with: getMessage returns the text given (the documented generated text for an out-of-range index or an asserted value, empty when none was given) and getCause the object given, or null when none was given, whatever other exceptions are created, copied, assigned, thrown or destroyed in between. An exception thrown by value is caught by a handler for its own class and for each of its ancestors in the documented hierarchy (Throwable, Exception, RuntimeException, IndexOutOfBoundsException, ...), by no other handler, and the handler sees the same message and cause; chains of causes can be followed to their end.",
  ["inputs", "histories"], "all exception classes, messages, chains of causes, handler classes and orders of creation, copying and throwing",
  "Tests throw each class once with a short message and catch it as itself; missing causes, copies, ancestor handlers and chains are not sampled.",
  [L+"Lang/Throwable/Throwable.cpp", L+"Lang/StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.cpp"], [("a throwable without a cause", L+"Lang/Throwable/Throwable.cpp: constructors and getCause"), ("generated messages", L+"Lang/StringIndexOutOfBoundsException: constructor from an index")], ["constructors of Throwable and its subclasses", "getMessage", "getCause"])

p("C30", "SimpleDateFormat formats every date as its pattern and zone prescribe",
  "For every pattern of strftime conversions and ordinary characters, every formatter's own time zone and every instant, format returns the pattern with each conversion replaced by the field of the local time in that zone (calendar fields, ISO week years, 12- and 24-hour clocks, names of days and months, offset and abbreviation of the zone with its daylight saving time), with surrounding white space removed and never cut short. Formatters are independent: changing the zone or pattern of one, copying, assigning, or looking up further zones with TimeZone.getTimeZone changes no other formatter. Formatting leaves the time zone of the process as it was, so Date fields read afterwards are those of the process's zone.",
  ["inputs", "histories"], "all patterns, zones, instants, and all interleavings of calls over several formatters in one thread",
  "Tests format one instant with a handful of patterns; changes of daylight saving time, week years, long results, several zones and the effect on later Date calls are not sampled.",
  [L+"Text/SimpleDateFormat/SimpleDateFormat.cpp", L+"Util/TimeZone/TimeZone.cpp"], [("zone switched and restored around strftime", L+"Text/SimpleDateFormat/SimpleDateFormat.cpp: format"), ("zones by value", L+"Util/TimeZone/TimeZone.cpp: getTimeZone")], ["SimpleDateFormat.format", "SimpleDateFormat.setTimeZone", "TimeZone.getTimeZone"])

p("C31", "Array is a bounds-checked sequence with value semantics",
  "For every element type and history, an Array holds exactly the elements given to its constructor (a list, a size with default elements, or a null-terminated vector of C strings, empty strings included and copied), followed by every element pushed or appended; length is the number of elements, iteration visits them in order, get and both [] operators return the element at an index from 0 to length-1 and throw for every other index without changing anything, and assignment through [] changes that element only. Pushing an element of the array itself is allowed. Copies, assignments and arguments passed by value are independent of the original.",
  ["inputs", "histories"], "all element types, contents, indices and sequences of operations",
  "Tests use one array of a few ints; out-of-range reads, growth while an element is referenced, nested arrays, copies and empty C strings are not sampled.",
  ["library/Kernel/Java.hpp"], [("length mirrored from the vector", "library/Kernel/Java.hpp: Array"), ("argument vectors", "library/Kernel/Java.hpp: Array(string *)")], ["public Array<E> API", "main's arguments"])

p("C32", "Boolean, Character and Enum objects behave as the values they hold",
  "For every input: a Boolean holds the value it was given, or whether the text it was made from is \"true\" ignoring case (constructor, valueOf, parseBoolean and getBoolean agree); its texts are true and false and parse back; compare, compareTo, equals, == and hashCode agree with the value. A Character compares by its char. digit returns the value of an ASCII letter or digit in a radix from 2 to 36, or -1; charCount is 2 exactly above U+FFFF; codePointAt, codePointBefore and codePointCount over ASCII arrays return the character or count inside the given limits, -1 for an impossible limit however large, and throw for an index outside the array. An Enum constant keeps its name and ordinal, and compareTo and equals follow the ordinals. Copies and assignments take over the value and leave other objects alone.",
  ["inputs", "histories"], "all texts, characters, radixes, limits, names and ordinals, and histories over two objects",
  "Tests use one or two values per method; equality of separately made Booleans, mixed-case texts, extreme limits and distant ordinals are not sampled.",
  [L+"Lang/Boolean/Boolean.cpp", L+"Lang/Character/Character.cpp", L+"Lang/Enum/Enum.hpp"], [("texts taken as true", L+"Lang/Boolean/Boolean.cpp: getBoolean"), ("limits checked without overflow", L+"Lang/Character/Character.cpp: codePointCount")], ["Boolean", "Character.digit", "Character.codePointAt", "Enum.compareTo"])

p("C33", "String.format renders every argument as its directive prescribes",
  "For every format and list of arguments, String.format returns the format with each directive replaced by the text of the next argument and every other character kept: integers of every width in decimal, unsigned, octal or hexadecimal form with sign, prefix, precision and zero padding as in C; floating-point arguments correctly rounded in fixed, scientific or shortest (%g) notation; characters; texts, cut at the precision; booleans as true or false; each padded to the directive's width on the side asked for, however long the result is. Boxed arguments print as the value they hold. %% is a percent sign and takes no argument, text that only resembles a directive stays as it is, arguments left over are ignored, and a directive without an argument raises the missing-arguments exception.",
  ["inputs"], "all formats whose conversions suit their arguments, all argument values, and any number of directives",
  "Tests format a dozen fixed templates; widths, precisions and flags in combination, long results, extreme values, and percent signs around directives are not sampled.",
  [L+"Lang/String/String.hpp", L+"Lang/String/String.cpp"], [("directives found by a regular expression, arguments consumed one by one", L+"Lang/String/String.hpp: format, printObject"), ("text of one argument", L+"Lang/String/String.cpp: print, printNumber")], ["String::format"])

p("C34", "Application runs the program once and reports how it ended",
  "Application calls the program exactly once with exactly the arguments of the process, in order and including empty ones, and returns 0 if it returns; if it throws an Exception (of any subclass) it prints \"Application Exception: \" and the message on a line and returns 1, and for anything else thrown it prints \"Unhandled Exception\" and returns 1; nothing escapes and whatever the program printed before stays. System.out.print and println write exactly the text of their argument (println followed by a line break) to standard output before they return; getenv returns the current value of an environment variable, or an empty text when there is none, without changing any; currentTimeMillis reads the system clock; exit ends the process with the status given.",
  ["inputs", "histories"], "all argument vectors, outcomes of the program, printed values, and histories of the environment",
  "No test calls Application, System.out, getenv or exit.",
  [L+"Lang/Object/Object.cpp", L+"Lang/System/System.hpp", L+"Lang/System/System.cpp"], [("program run inside a handler for everything", L+"Lang/Object/Object.cpp: Application"), ("printing", L+"Lang/System/System.hpp: out")], ["Application", "System::out::print", "System::getenv", "System::exit"])

p("C35", "Everything the library allocates is released with its objects",
  "For every history of calls on the library's objects, legal or refused, once the objects of the history are destroyed the heap holds what it held before: no constructor, assignment, growth, removal, search, conversion, parsing or formatting call, and no call that ends in an exception, loses a block. Running the same history again and again in one process therefore does not grow the heap, except for storage kept for the life of the process and filled by the first runs (caches of boxed values, the C library's environment, locale and time-zone tables).",
  ["histories"], "all histories of calls on every class with a sequential specification (C01 to C34), including refused calls, copies and assignments of objects to themselves",
  "A unit test sees the result of a call, not the blocks it leaves behind, and one run of a short history does not tell a cache from a loss.",
  [L+"Util/LinkedList/LinkedList.hpp", L+"Util/HashMap/HashMap.hpp", L+"Lang/String/String.cpp", L+"Lang/StringBuilder/StringBuilder.cpp", L+"Lang/StringBuffer/StringBuffer.cpp", L+"Lang/Integer/Integer.cpp", L+"Lang/Long/Long.cpp", L+"Util/Date/Date.cpp", L+"Util/Base64/Base64.cpp"],
  [("text buffers owned and released by hand", L+"Lang/String/String.cpp: String, operator=, ~String"), ("working tables of the searches", L+"Lang/StringBuilder/StringBuilder.cpp: stringMatches"), ("lazily made texts of boxed numbers", L+"Lang/Integer/Integer.cpp: toString, operator="), ("nodes", L+"Util/LinkedList/LinkedList.hpp: clear, remove, ~LinkedList")], ["destructors, assignment operators and every call of the classes of C01 to C34"])

p("C36", "Calls of different threads on objects of their own do not interfere",
  "When threads work at the same time, each on objects no other thread touches, every call returns the result, or ends in the exception, that it has when nothing else runs. This holds for the containers, texts and buffers, numbers and their conversions, hashes, bit sets, random generators, Base64, dates and formatting: no call passes a value through storage shared by all threads, and caches and counters kept for the process give every thread its own right answer.",
  ["schedules"], "all pairs of histories on separate objects of the classes of C01 to C33, run by two threads under all schedules; excluded: SimpleDateFormat, the environment, and UUID.randomUUID, which share state by design of the C library underneath",
  "Tests run one call after another in one thread; a static buffer in a conversion is right in each of them and wrong only when a second thread enters between two accesses of the first.",
  [L+"Util/Date/Date.cpp", L+"Util/Base64/Base64.cpp", L+"Util/Random/Random.cpp", L+"Util/BitSet/BitSet.cpp", L+"Lang/String/String.cpp", L+"Lang/StringBuilder/StringBuilder.cpp", L+"Lang/Integer/Integer.cpp", L+"Lang/Long/Long.cpp", L+"Util/HashMap/HashMap.hpp", L+"Util/ArrayList/ArrayList.hpp"],
  [("buffers of conversions are local to the call", L+"Lang/Integer/Integer.cpp: toString; Util/Date/Date.cpp: toString; Util/Base64/Base64.cpp"), ("working tables of the searches", L+"Lang/StringBuilder/StringBuilder.cpp: indexOf")], ["every call of the classes of C01 to C33"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
