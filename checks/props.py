"""Property texts; gen.py writes properties.jsonl and MANIFEST.json from here and from registry.py."""
IB = "src/serialiser/include/IoBuffer.hpp"
CL = "src/serialiser/include/IoSerialiserCmwLight.hpp"
JS = "src/serialiser/include/IoSerialiserJson.hpp"
YS = "src/serialiser/include/IoSerialiserYaS.hpp"
IS = "src/serialiser/include/IoSerialiser.hpp"
B64 = "src/majordomo/include/majordomo/base64pp.hpp"
RW = "src/core/include/ReaderWriterLock.hpp"
SW = "src/core/include/SpinWait.hpp"
TA = "src/core/include/ThreadAffinity.hpp"
URI = "src/core/include/URI.hpp"
TC = "src/core/include/TimingCtx.hpp"
TP = "src/core/include/Topic.hpp"
FI = "src/core/include/Filters.hpp"
SM = "src/majordomo/include/majordomo/SubscriptionMatcher.hpp"
RB = "src/majordomo/include/majordomo/Rbac.hpp"
MI = "src/core/include/MIME.hpp"
OC = "src/core/include/opencmw.hpp"
D_ = "src/disruptor/include/disruptor/"
DR, DC, DS, DW, DB, DQ = D_ + "RingBuffer.hpp", D_ + "ClaimStrategy.hpp", D_ + "Sequence.hpp", D_ + "WaitStrategy.hpp", D_ + "ProcessingSequenceBarrier.hpp", D_ + "BlockingQueue.hpp"

def A(files, mech, state="", observe="", hook=None):
    return dict(files=files if isinstance(files, list) else [files], mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=state, meaning=state, where=mech[0][1])] if state else [], observe_at=[observe] if observe else [], hook_needed=hook)

PROPERTIES = [
    dict(id="P01", title="base64 encoding is RFC 4648 and decodes back to the original bytes",
         statement="For every byte sequence, base64 encoding yields exactly the RFC 4648 text (standard alphabet, '=' padding, length 4*ceil(n/3)), and decoding that text yields the original byte sequence.",
         quantifier=dict(over=["inputs"], text="every byte sequence, of every length and with every byte value"),
         why_tests_cant="The unit tests encode and decode a dozen fixed strings; a wrong table entry, shift or tail case shows only for particular byte values at particular positions.",
         anchors=A(B64, [("encode", B64 + ":encode, encode_tripplet"), ("decode", B64 + ":decode, decode_quad"), ("tables", B64 + ":encode_table, decode_table")], observe="return values of base64pp::encode and base64pp::decode")),
    dict(id="P02", title="base64 decoding accepts exactly well-formed texts and is memory-safe",
         statement="Decoding accepts a text if and only if its length is a multiple of four and it consists of base64 alphabet characters with at most two '=' at the very end; every other text is refused with an empty result. An accepted text decodes to the bytes RFC 4648 assigns to it, and no text causes an access outside the given text or the tables.",
         quantifier=dict(over=["inputs"], text="every text of every length over all 256 byte values"),
         why_tests_cant="Tests try seven malformed strings out of the whole input space; a hole in the alphabet check only shows for the few characters it lets through.",
         anchors=A(B64, [("validation", B64 + ":is_valid_base64_char, is_valid_base64_str"), ("decode", B64 + ":decode")], observe="return value of base64pp::decode")),
    dict(id="P03", title="URI parsing splits a text into its RFC 3986 components",
         statement="For every URI text with a scheme, or starting with a single '/', with '?' or with '#', the scheme, authority, path, query and fragment reported are exactly the RFC 3986 parts of the text (empty parts reported as absent), and the text itself is reported unchanged. The relative references (with and without fragment) are the path, query and fragment re-joined with their delimiters.",
         quantifier=dict(over=["inputs"], text="every URI text of the documented form, all characters, all combinations of present and absent components"),
         why_tests_cant="Tests parse about twenty hand-written URIs; delimiter combinations (a ':' in a query, '?' in a fragment, '/' after '#', empty components) are unbounded.",
         anchors=A(URI, [("parser", URI + ":parseURI"), ("accessors", URI + ":scheme, authority, path, queryParam, fragment, relativeRef, relativeRefNoFragment")], observe="accessors of opencmw::URI")),
    dict(id="P04", title="URI construction validates strictly and authority accessors are total",
         statement="In strict mode a URI text of the documented form is rejected with a URI syntax exception exactly when it contains a character not permitted in URIs or in its scheme, authority or path; relaxed mode accepts every text, and no other exception, termination or invalid memory access occurs in construction or in any accessor. User, password, host (including bracketed IPv6 literals) and port are the parts of the authority, the port being reported exactly when it is a decimal number up to 65535.",
         quantifier=dict(over=["inputs"], text="every text of the documented form over all 256 byte values"),
         why_tests_cant="Tests append single characters to fixed prefixes; which component a character falls into depends on the whole text, and the accessors are noexcept, so a bad port terminates the process.",
         anchors=A(URI, [("validation", URI + ":parseURI"), ("authority", URI + ":parseAuthority, toPort"), ("accessors", URI + ":user, password, hostName, port")], observe="constructor outcome and accessors of opencmw::URI")),
    dict(id="P05", title="percent-encoding and decoding are exact inverses; malformed input is handled",
         statement="Percent-encoding keeps the RFC 3986 unreserved characters and writes every other byte as '%' and two upper-case hexadecimal digits, and decoding it gives the original bytes for every byte string. Decoding a text in which a '%' is not followed by two hexadecimal digits throws a URI syntax exception in strict mode and keeps that '%' literally in relaxed mode; every other text is decoded byte for byte.",
         quantifier=dict(over=["inputs"], text="every byte string, including truncated and malformed escapes at every position"),
         why_tests_cant="Tests encode single bytes behind a fixed prefix and decode only what was encoded; malformed escapes and their position relative to the end of the text are not sampled.",
         anchors=A(URI, [("encode", URI + ":encode"), ("decode", URI + ":decode")], observe="return values and exceptions of URI::encode and URI::decode")),
    dict(id="P06", title="URI query parameters map each key to its decoded last value",
         statement="The query parameter map of a URI holds exactly the keys of the '&'- or ';'-separated parameters, keys and values percent-decoded, the value being everything after the first '=' (absent without '='), the last occurrence of a key winning; an empty value is reported as an empty string, except for the last parameter where it is absent. Strict mode throws a URI syntax exception exactly for characters not permitted in queries or malformed escapes, and asking again gives the same map or the same exception.",
         quantifier=dict(over=["inputs"], text="every query text"),
         why_tests_cant="Tests compare seven fixed queries; separators, '=' and escapes interact at every position, repeated keys overwrite each other.",
         anchors=A(URI, [("query map", URI + ":queryParamMap"), ("decoding", URI + ":decode")], state="lazily computed map", observe="URI::queryParamMap")),
    dict(id="P07", title="URI copies, moves and assignments are independent values",
         statement="After any sequence of copy or move construction and assignment (self-assignment included), with any accessors called before and the source destroyed afterwards, a URI reports exactly what a freshly parsed URI of its text reports and never refers to memory of another object; a moved-from URI can be inspected and assigned to. Equality and ordering are those of the texts, and equal URIs have equal hashes.",
         quantifier=dict(over=["inputs", "histories"], text="every pair of URIs, every history of copies, moves, assignments and lazy accessor calls, texts on both sides of the small-string limit"),
         why_tests_cant="The components are views into the object's own text, so a stale view depends on the previous value, the lazily parsed state and the string length; tests cover one copy and one move.",
         anchors=A(URI, [("special members", URI + ":operator=, URI"), ("lazy state", URI + ":parseAuthority, queryParamMap")], state="string views into the owned text, lazily parsed authority and query map", observe="accessors of the target after the source is gone")),
    dict(id="P08", title="URI factory builds texts that parse back to the given components",
         statement="A URI built from a scheme, user, password, host, port, path, query, fragment and query parameters (components made of permitted characters, any bytes in query parameter keys and values) parses back to those components and parameters, with a '/' put before a path that follows a host. Building from an existing URI without empty delimiters reproduces its text, and producing the text never changes the factory.",
         quantifier=dict(over=["inputs", "histories"], text="every combination of components and parameters"),
         why_tests_cant="Tests build a dozen fixed combinations; which separators are needed depends on which components are present, and escaping on every byte of keys and values.",
         anchors=A(URI, [("factory", URI + ":UriFactory::toString, build, addQueryParameter"), ("from URI", URI + ":UriFactory(const URI&)")], observe="UriFactory::toString/build and the accessors of the built URI")),
    dict(id="P09", title="ReaderWriterLock never lets a reader and a writer hold it together",
         statement="Under every schedule, no reader holds the lock (through lock, tryLock or a scoped guard) while a writer does, so what a reader reads under the lock is race-free and never half-written; several readers (or several writers) may hold it together, a waiting thread is admitted once the other side has released it, tryLock without contention is granted exactly if the other side does not hold the lock, and a refused attempt holds nothing. lock, unlock and value report the number of readers, or of writers negated, and after every holder has released the lock (a guard also when left by an exception) it is free.",
         quantifier=dict(over=["schedules", "histories"], text="every interleaving of readers and writers using any mix of the operations, and every sequence of operations of one thread"),
         why_tests_cant="The unit test locks and unlocks from one thread; exclusion fails only in particular interleavings of the load and the compare-and-swap, and wrong memory orders do not fail on x86 at all.",
         anchors=A(RW, [("lock", RW + ":lock"), ("tryLock", RW + ":tryLock"), ("unlock", RW + ":unlock"), ("guard", RW + ":ScopedLock")], state="_activeReaderCount", observe="data protected by the lock; return values of lock, tryLock, unlock, value")),
    dict(id="P10", title="AtomicMutex provides mutual exclusion and publishes the protected writes",
         statement="Under every schedule, at most one thread is between lock() and unlock() of an AtomicMutex, with or without a spin-wait policy, directly or through the standard lock guards; writes made while holding it are visible, free of data races, to the next holder, no increment is lost, and a waiting thread gets the mutex once it is released, also repeatedly.",
         quantifier=dict(over=["schedules"], text="every interleaving of the threads using the mutex"),
         why_tests_cant="No test uses two threads on it; lost exclusion needs a particular interleaving and a missing acquire or release is invisible on x86.",
         anchors=A(SW, [("lock", SW + ":AtomicMutex::lock"), ("unlock", SW + ":AtomicMutex::unlock")], state="_lock", observe="data protected by the mutex")),
    dict(id="P11", title="SpinWait waits as configured and spinUntil honours its timeout",
         statement="spinUntil returns true exactly if the condition held at its last evaluation; with a timeout of -1 or none it waits until the condition holds however long that takes, with 0 it evaluates the condition once, timeouts below -1 are refused with std::out_of_range, and with a positive timeout it gives up only after that many milliseconds and, once the spinning phase is over, at the first evaluation after them. Each spin is counted without overflow; the first ones neither yield nor sleep, and after YIELD_THRESHOLD every SLEEP_1-th spin sleeps exactly 1 ms, the others sleep not at all and yield except for the SLEEP_0-th ones; reset starts again.",
         quantifier=dict(over=["inputs", "schedules"], text="every timeout, clock behaviour, moment at which the condition becomes true and counter value"),
         why_tests_cant="The tests call it with a condition that holds after four evaluations, so no timeout is ever exercised, and 2^31 counter values cannot be run.",
         anchors=A(SW, [("spin", SW + ":SpinWait::spinOnce"), ("wait", SW + ":SpinWait::spinUntil")], state="_count", observe="return value of spinUntil, count(), system calls sched_yield and nanosleep")),
    dict(id="P12", title="Thread affinity, scheduling and names reach the OS unchanged, errors reported",
         statement="Setting a thread or process affinity requests exactly the CPUs whose flag is set (flags beyond the number of CPUs ignored) and reading it yields one flag per CPU, set exactly if the CPU is in the set; policy and priority are passed on and reported unchanged (unknown policies as UNKNOWN), priorities outside the range of the policy being refused with THREAD_VALUE_RANGE without touching the system; thread names are set and reported exactly. The operation applies to the given thread or process, otherwise the calling one; an uninitialised thread or non-positive process id throws std::system_error with THREAD_UNINITIALISED, a failing system call one with its code, and a caught error can be inspected (code, category, message).",
         quantifier=dict(over=["inputs", "fault_sequences"], text="every mask, CPU count, policy, priority, name and operating system answer"),
         why_tests_cant="The tests run on one machine with its CPU count, two masks and the priorities an unprivileged user may set; failing system calls and other CPU counts do not occur.",
         anchors=A(TA, [("affinity", TA + ":getAffinityMask, getThreadAffinity, setThreadAffinity, getProcessAffinity, setProcessAffinity"), ("scheduling", TA + ":getProcessSchedulingParameter, setProcessSchedulingParameter, getThreadSchedulingParameter, setThreadSchedulingParameter, getEnumPolicy"), ("names", TA + ":getThreadName, setThreadName"), ("errors", TA + ":thread_exception")], observe="arguments of the pthread and sched system calls, return values and exceptions")),
    dict(id="P13", title="Timing selectors: parsing, matching and comparison follow the current text",
         statement="A timing selector is accepted exactly if it is (ignoring case) empty, 'ALL', 'FAIR.SELECTOR.ALL' or 'FAIR.SELECTOR.' followed by ':'-separated tags 'K=V' with K one of C, S, P, T and V 'ALL' or a 32 bit integer making up the whole value; anything else throws std::invalid_argument. The fields read are those of the current selector text, also after it was changed, on either side of matches(), matchesWithBpcts(), == and <=>; an invalid text is reported on every access. matches(other) holds exactly if every field of other is a wildcard or equal (matchesWithBpcts: and its time stamp 0 or equal); ==, <=> and hash agree; toString() and the numeric constructor produce an equal context.",
         quantifier=dict(over=["inputs", "histories"], text="every selector text, field combination, time stamp and sequence of changes"),
         why_tests_cant="The tests parse about a dozen selectors; values out of range, trailing characters, stale fields and hash collisions between texts need particular inputs or histories.",
         anchors=A(TC, [("parse", TC + ":parse, toString"), ("match", TC + ":matches, matchesWithBpcts, operator==, operator<=>, hash")], observe="cid/sid/pid/gid, results and exceptions")),
    dict(id="P14", title="Topics survive their ZMQ and MDP forms; distinct topics stay distinct",
         statement="Topic::fromString takes the text up to '?' as service (leading slash added, trailing slashes removed; refused if empty or with characters other than letters, digits, '/', '.', '_') and the query as parameters, refusing parameters given twice. fromZmqTopic(toZmqTopic()) and fromMdpTopic(toMdpTopic()) yield an equal topic for every parameter name and value; the ZMQ form does not depend on the parameter order, is the same for two topics exactly if they are equal, and contains the '#' delimiter only at its end; equal topics have equal hashes.",
         quantifier=dict(over=["inputs"], text="every service text, parameter name and value"),
         why_tests_cant="Only a few alphanumeric parameters are sampled; reserved characters in names and values decide whether two subscriptions collide.",
         anchors=A(TP, [("construction", TP + ":fromString, parseService, isValidServiceName"), ("representations", TP + ":toZmqTopic, fromZmqTopic, toMdpTopic, fromMdpTopic, hash")], observe="service(), params(), strings")),
    dict(id="P15", title="A notification reaches exactly the subscribers whose filters accept it",
         statement="SubscriptionMatcher delivers a notification exactly if the service is the same and, for every parameter of the subscription that has a filter, the notification has that parameter and the filter accepts the pair of values; parameters without filter are ignored. NumberFilter accepts exactly two texts that are the same number of its type (parseNumber: the whole text, in range), ContentTypeFilter equal texts, TimingCtxFilter a notified context covered by the subscribed selector; values that do not parse match nothing and never throw.",
         quantifier=dict(over=["inputs", "configurations"], text="every combination of present and absent parameters, every filter and value"),
         why_tests_cant="The tests sample some dozen topic pairs; the decision depends on all combinations of presence, filter and value, including numbers out of range.",
         anchors=A([SM, FI, OC], [("matcher", SM + ":operator(), testQueries"), ("filters", FI + ":DomainFilter, NumberFilter, TimingCtxMatches"), ("numbers", OC + ":parseNumber")], observe="return values")),
    dict(id="P16", title="RBAC tokens split into role and hash identically everywhere",
         statement="For every token, role(), hash() and roleAndHash() agree: a token 'RBAC=<role>,<hash>' yields the text up to the first comma and everything after it; a token without the prefix or without comma yields neither.",
         quantifier=dict(over=["inputs"], text="every token"),
         why_tests_cant="A handful of tokens is sampled; access control depends on the three functions agreeing for malformed ones.",
         anchors=A(RB, [("token", RB + ":parse_rbac::role, hash, roleAndHash")], observe="return values")),
    dict(id="P17", title="MIME types are recognised by name and extension, ignoring case",
         statement="getType yields the first listed type whose name occurs in the text, ignoring case (UNKNOWN if none), so every listed name is recognised, alone or in a list of types; getTypeByFileName yields the first listed type one of whose extensions ends the file name, ignoring case (UNKNOWN if none), and every listed extension leads to its type.",
         quantifier=dict(over=["inputs"], text="every type name, extension and case mix, near misses included"),
         why_tests_cant="The tests use all-lower or all-upper-case names; single letters treated wrongly or near misses accepted are not visible there.",
         anchors=A(MI, [("recognition", MI + ":getType, getTypeByFileName, detail::toLower")], observe="returned type")),
    dict(id="P18", title="IoBuffer returns what was put, owns its memory, and never reads outside it",
         statement="Values put into an IoBuffer (numbers, strings, arrays of numbers, booleans and strings) are appended in the documented little-endian wire form and read back equal, in order, with the position ending behind them; growing, reserving, resizing, shrinking and clearing keep the remaining content, with capacity() >= size(). Copies have equal content and position and are independent; moves, assignments and swaps hand content, position and the duty to release it over exactly once, also between buffers that own, wrap or borrow their memory, and leave the source empty and usable. The checked accessors skip, at and asString throw std::out_of_range exactly when the request is not entirely inside the content, and get/getArray never read outside it or return more than it holds, whatever length the bytes claim.",
         quantifier=dict(over=["inputs", "histories"], text="every value, every history of operations and every content within the bounds"),
         why_tests_cant="Capacity boundaries, ownership combinations and inconsistent lengths multiply; each needs exact sizes or byte patterns to show, and a wrong free or read is often silent.",
         anchors=A(IB, [("write", IB + ":put, reserve_spare, reallocate"), ("read", IB + ":get, getArray, extractStringView"), ("ownership", IB + ":IoBuffer(IoBuffer&&), swap, operator="), ("checks", IB + ":skip, at, asString")], observe="values read back, size/capacity/position, exceptions, memory released")),
    dict(id="P19", title="YaS round trip: what is serialised is what is deserialised",
         statement="For every object of a reflected type, deserialising its YaS serialisation into another object of that type yields equal members (numbers bit by bit, texts, arrays, multi-dimensional arrays with dimensions, sets, maps, nested objects, values behind smart pointers), replaces earlier content, consumes the whole buffer and reports nothing; members behind null pointers are left out and leave the reader's member alone. Read into a type with other members, fields of equal name and type are taken in any order, while unknown fields and fields of another type or unit are skipped without disturbing the others, keep the reader's value, and are reported (LENIENT) or refused with ProtocolException (ALWAYS). Data with another protocol magic, name or major version are refused or reported and not read.",
         quantifier=dict(over=["inputs", "configurations"], text="every object value within the bounds and every check level"),
         why_tests_cant="Values, container sizes, presence of optional members and type mismatches combine without end, and a wrong offset shows only for particular sizes or a particular following field.",
         anchors=A(YS, [("write", YS + ":IoSerialiser<YaS, T>::serialise, FieldHeaderWriter<YaS>::put"), ("read", IS + ":detail::deserialise, " + YS + ":IoSerialiser<YaS, T>::deserialise"), ("header", YS + ":checkHeaderInfo<YaS>")], observe="members read, DeserialiserInfo, exceptions")),
    dict(id="P20", title="Damaged YaS data never make the reader leave the buffer or hang",
         statement="Whatever bytes of a YaS message are damaged (type ids, offsets, sizes, counts, names, values) and wherever it is cut short, deserialising it terminates with a result or an exception the caller can catch: it reads and writes no memory outside the message and the object, does not loop forever, does not abort, and leaves containers consistent (array dimensions never exceed the elements present).",
         quantifier=dict(over=["inputs", "fault_sequences"], text="every replacement of consecutive bytes at every place, every cut"),
         why_tests_cant="The harmful values are particular combinations of position and value (a negative offset, a count just above the bytes left); random damage mostly hits names and payload.",
         anchors=A(YS, [("headers", YS + ":FieldHeaderReader<YaS>::get"), ("containers", YS + ":IoSerialiser<YaS, T>::deserialise"), ("reads", IB + ":get, getArray, extractStringView")], observe="memory accesses, termination, exceptions")),
    dict(id="P21", title="CmwLight round trip: what is serialised is what is deserialised",
         statement="For every object of a reflected type, deserialising its CmwLight serialisation into another object of that type yields equal members (numbers bit by bit, texts, arrays, multi-dimensional arrays with dimensions, sets, string-keyed maps, variants, nested objects, values behind smart pointers, annotated members), replaces earlier content, consumes the whole buffer and reports nothing; members behind null pointers are left out and leave the reader's member alone. Read into a type with other members, fields of equal name and type are taken in any order; unknown fields (other than nested objects) and fields of another type are skipped without disturbing the others, keep the reader's value, and are reported (LENIENT) or refused with ProtocolException (ALWAYS); members the reader declares read-only are never set when checking is on.",
         quantifier=dict(over=["inputs", "configurations"], text="every object value within the bounds and every check level"),
         why_tests_cant="The format carries no field sizes: one member kind whose reader, writer and skipper disagree shifts everything behind it, but only for particular sizes and neighbours.",
         anchors=A(CL, [("write", CL + ":IoSerialiser<CmwLight, T>::serialise, FieldHeaderWriter<CmwLight>::put"), ("read", IS + ":detail::deserialise, " + CL + ":IoSerialiser<CmwLight, T>::deserialise"), ("skip", CL + ":IoSerialiser<CmwLight, OTHER>::deserialise")], observe="members read, DeserialiserInfo, exceptions")),
    dict(id="P22", title="Damaged CmwLight data never make the reader leave the buffer or hang",
         statement="Whatever bytes of a CmwLight message are damaged (type ids, field counts, sizes, dimensions, names, values) and wherever it is cut short, deserialising it terminates with a result or an exception the caller can catch: it reads and writes no memory outside the message and the object, does not loop forever, does not abort, and leaves containers consistent (array dimensions never exceed the elements present).",
         quantifier=dict(over=["inputs", "fault_sequences"], text="every replacement of consecutive bytes at every place, every cut"),
         why_tests_cant="The harmful values are particular combinations of position and value (a negative count, a size just above the bytes left); random damage mostly hits names and payload.",
         anchors=A(CL, [("headers", CL + ":FieldHeaderReader<CmwLight>::get"), ("containers", CL + ":IoSerialiser<CmwLight, T>::deserialise"), ("skip", CL + ":skipRawArray, skipArray, skipMultiArray")], observe="memory accesses, termination, exceptions")),
    dict(id="P23", title="Json round trip, valid Json text, layout-independent reading",
         statement="Deserialising the Json serialisation of an object of a reflected type yields equal members (booleans, integers, texts, arrays, sets, multi-dimensional arrays, string-keyed maps, nested objects and arrays of them, values behind smart pointers, annotated members), replaces earlier content and reports nothing; members behind null pointers are left out. Texts are written as Json strings (quotes, backslashes and control characters escaped) that denote exactly the text, and any Json string read, including unicode escapes and surrogate pairs, yields the text it denotes in UTF-8, while illegal escapes are refused. Integers read are the number denoted; those beyond the member's range are refused. White space between tokens and the order of members make no difference. Unknown fields of any kind and values where an object is expected are skipped without disturbing the others and reported (LENIENT) or refused (ALWAYS); read-only members are never set when checking is on.",
         quantifier=dict(over=["inputs", "configurations"], text="every object value, text and layout within the bounds"),
         why_tests_cant="Every byte of a text, every escape and every layout is a different path through the parser; the tests feed two documents.",
         anchors=A(JS, [("texts", JS + ":json::writeString, readString, readKey"), ("values", JS + ":IoSerialiser<Json, T>::serialise, deserialise"), ("fields", JS + ":FieldHeaderWriter<Json>::put, FieldHeaderReader<Json>::get"), ("skip", JS + ":json::skipValue")], observe="text written, members read, DeserialiserInfo, exceptions")),
    dict(id="P24", title="Malformed Json never makes the reader leave the text or hang",
         statement="Whatever characters of a Json text are damaged and wherever it is cut short, deserialising it terminates with a result or an exception the caller can catch: it reads and writes no memory outside the text and the object, does not loop forever, does not abort, and leaves containers consistent (array dimensions never exceed the elements present).",
         quantifier=dict(over=["inputs", "fault_sequences"], text="every replacement of consecutive characters at every place, every cut"),
         why_tests_cant="The harmful characters depend on the place (a closing bracket inside a number, a missing colon, a cut inside an escape sequence); tests try two malformed documents.",
         anchors=A(JS, [("headers", JS + ":FieldHeaderReader<Json>::get"), ("values", JS + ":IoSerialiser<Json, T>::deserialise"), ("skip", JS + ":json::skipValue, skipObject, skipArray, skipNumber")], observe="memory accesses, termination, exceptions")),
    dict(id="P25", title="Ring buffer: every event once, in order, intact, never overwritten unread",
         statement="Whatever the history of claims, publications and polls, each consumer of the disruptor ring buffer is given every published event exactly once, in sequence order, with the data written before it was published, and no event that is only claimed; a chained consumer only those its predecessor has passed. A slot is given out again only after all gating consumers have passed it: tryNext/tryPublishEvent are refused exactly if not enough slots are free, and getRemainingCapacity, hasAvailableCapacity, isPublished, getMinimumGatingSequence and the poll states tell exactly that. A handler that stops or throws leaves the rest for the next poll, the event it failed at included.",
         quantifier=dict(over=["histories", "inputs"], text="every history of claims, publications and polls within the bounds, every event data"),
         why_tests_cant="Stale cached positions, wrap-around and claims outstanding at the wrong moment need particular histories; the tests run straight publish-then-poll sequences.",
         anchors=A([DR, DC, DS], [("claims", DC + ":SingleThreadedStrategy, MultiThreadedStrategy"), ("polls", DR + ":EventPoller::poll"), ("publication", DR + ":tryPublishEvent, publish"), ("gating", DS + ":getMinimumSequence")], observe="events delivered, return values, capacity")),
    dict(id="P26", title="Ring buffer under concurrency: no event lost, torn or overwritten unread",
         statement="With producers and consumers in different threads, in every interleaving: a consumer sees the complete data of each event it is given, in order and once; producers are given distinct consecutive sequences; a slot is not written while any gating consumer may still read it, even while consumers advance during the producer's check; of producers competing for the last slot one is refused; a producer waiting for room goes on once the consumer made it. There is no data race.",
         quantifier=dict(over=["schedules"], text="every interleaving of the threads within the bounds"),
         why_tests_cant="The damaging interleavings are a few instructions wide, and missing memory orderings do not show on x86 at all.",
         anchors=A([DR, DC, DS], [("claims", DC + ":next, tryNext, hasAvailableCapacity"), ("publication", DC + ":publish, setAvailable, isAvailable"), ("gating", DS + ":getMinimumSequence")], observe="events delivered, sequences, data races")),
    dict(id="P27", title="Waiting consumers are woken by publication and alert, never lost",
         statement="A consumer waiting on a sequence barrier, with any wait strategy, returns once the event is published (and, if it depends on other consumers, only once they have passed it), sees the event's complete data, and never returns a sequence that is not available; an alert ends the wait with AlertException and stays set until cleared; a timed wait ends with the event or TimeoutException; all consumers blocked on an event are woken. BlockingQueue hands each value to exactly one consumer in order, blocks while empty without losing wake-ups, and a timed pop either takes a value or leaves it. No interleaving deadlocks or races.",
         quantifier=dict(over=["schedules"], text="every interleaving of publisher, alerting thread and waiting consumers within the bounds"),
         why_tests_cant="A lost wake-up needs the notification to fall between the check and the wait; tests pass thousands of times before it does.",
         anchors=A([DW, DB, DQ], [("strategies", DW + ":waitFor, signalAllWhenBlocking"), ("barrier", DB + ":waitFor, alert, checkAlert"), ("queue", DQ + ":push, pop, timedWaitAndPop")], observe="returned sequences, exceptions, deadlock")),
    dict(id="P28", title="Event processors handle each event once, survive failures, stop on halt",
         statement="A BatchEventProcessor hands every available event to its handler exactly once, in order, with the end-of-batch flag at the last available one, and releases an event's slot only after it was handled; an event whose handler throws is reported once to the exception handler (if there is one) and passed, timeouts and stray alerts change nothing. Lifecycle callbacks come once per run, their failures are reported. WorkProcessors sharing a work sequence handle every event exactly once between them. halt(), at any moment after the start, ends run(); a running processor is not started twice and a halted one can be run again.",
         quantifier=dict(over=["histories", "schedules", "fault_sequences"], text="every portioning of events, failure pattern and interleaving with halt() within the bounds"),
         why_tests_cant="Failures combined with batch boundaries and a halt in the few instructions of the start are combinations the tests do not produce.",
         anchors=A([D_ + "BatchEventProcessor.hpp", D_ + "WorkProcessor.hpp"], [("batch", D_ + "BatchEventProcessor.hpp:run, halt"), ("work", D_ + "WorkProcessor.hpp:run, halt")], observe="callbacks, sequence(), isRunning(), termination")),
    dict(id="P29", title="Query serialiser: contexts survive the way through query parameters",
         statement="A context object written as query parameters (query::serialise) and read back (query::deserialise) has the same field values: texts, flags, integers, content type and timing selector. On reading, a field whose parameter is absent or does not parse as a whole keeps its default and disturbs no other field; unknown parameters are ignored; a flag is set by a parameter without value or 'true'. getMimeType is the first content type of the context, unknown if it has none; registerTypes registers for each field the filter of its type.",
         quantifier=dict(over=["inputs"], text="every context value and every parameter text within the bounds"),
         why_tests_cant="The tests use one context; the failing texts (digits followed by something else, numbers out of range, a flag with other text) are combinations per field.",
         anchors=A(["src/serialiser/include/QuerySerialiser.hpp", OC], [("fields", "src/serialiser/include/QuerySerialiser.hpp:QuerySerialiser<T>::serialise, deserialise"), ("contexts", "src/serialiser/include/QuerySerialiser.hpp:serialise, deserialise, registerTypes, getMimeType"), ("numbers", OC + ":parseNumber")], observe="the query map and the context read back")),
    dict(id="P30", title="DNS storage: registered signals are found, once, until expired or deleted",
         statement="At any time, a query of the DNS storage returns exactly the entries registered and neither deleted nor expired that agree with the filter in every field it gives, each once, however often it was registered; a deletion removes exactly the entries that match and returns those; expired and deleted entries never come back, neither when their slot is reused nor after a restart, which preserves all the others. The column form of an entry list holds the same entries, and one with columns of different length (from a client) is refused.",
         quantifier=dict(over=["histories", "inputs"], text="every history of registrations, renewals, deletions, expiries and restarts within the bounds, every filter"),
         why_tests_cant="Duplicates and resurrections need a renewal after an expiry followed by a restart or deletion, and entries without rate; tests try each operation once, on entries that have all fields.",
         anchors=A(["src/services/include/services/dns_storage.hpp", "src/services/include/services/dns_types.hpp"], [("storage", "src/services/include/services/dns_storage.hpp:addEntry, queryEntries, deleteEntries, saveDataToFile, loadDataFromFile"), ("filter", "src/services/include/services/dns_types.hpp:QueryEntry::operator=="), ("columns", "src/services/include/services/dns_types.hpp:FlatEntryList")], observe="query results, deletion results, entries after a restart")),
    dict(id="P31", title="MultiArray: one index, one element; arithmetic element by element",
         statement="For every number and size of dimensions, index() maps the indices within the dimensions one-to-one, in row-major order, to the elements, and indices() undoes it, also for windows with strides and offsets; all accessors reach the same element, get() throws beyond the elements. Sums (with an array or a number, in place or not) have the sums of the elements and the layout of the array, equality means equal dimensions and elements; no operation leaves the elements' memory.",
         quantifier=dict(over=["inputs", "configurations"], text="every size, index and element value within the bounds"),
         why_tests_cant="The tests use two fixed sizes in the default layout; stride and offset mistakes cancel out there.",
         anchors=A("src/serialiser/include/MultiArray.hpp", [("layout", "src/serialiser/include/MultiArray.hpp:index, indices, constructors"), ("access", "src/serialiser/include/MultiArray.hpp:operator[], operator(), get"), ("arithmetic", "src/serialiser/include/MultiArray.hpp:operator+, operator+=, operator==")], observe="indices, elements, memory accesses")),
    dict(id="P32", title="BasicSetting: threads share whole values, no update lost, real-time never waits",
         statement="A BasicSetting shared by one real-time and several other threads: whoever accesses it sees a complete value that was published, never a torn or freed one, never an older one than before; what the mutating side has changed or replaced is seen by its own next access and, in the end, by all; changes by several non-real-time threads are all kept. The real-time thread gets and gives back access without waiting for the others. No interleaving deadlocks or races.",
         quantifier=dict(over=["schedules"], text="every interleaving of the threads within the bounds"),
         why_tests_cant="The tests access the settings from one thread only.",
         anchors=A("src/disruptor/include/BasicSetting.hpp", [("real-time mutable", "src/disruptor/include/BasicSetting.hpp:detail::RealtimeMutable"), ("non-real-time mutable", "src/disruptor/include/BasicSetting.hpp:detail::NonRealtimeMutable"), ("guard", "src/disruptor/include/BasicSetting.hpp:ScopedAccess")], observe="values seen, data races, deadlock")),
    dict(id="P33", title="Transactional settings: history, transactions, expiry and contexts",
         statement="A transactional setting returns the value committed last, earlier ones by index, and by time the last one committed that is valid since then; beyond its history it throws. What is staged under a token applies only when that token (or all) is committed, once, with the value staged last; withdrawn or expired transactions never apply and leave the others as they are. Settings expire oldest first, only when unused for the time-out (never if it is disabled) or when the history is full, and the latest always remains. Per timing context, the setting committed for the most specific context that covers the request applies, commits for one context leave the others as they are, and a setting read stays as it was read.",
         quantifier=dict(over=["histories", "inputs", "schedules"], text="every history of commits, stagings, withdrawals and expiries with any values and times within the bounds"),
         why_tests_cant="The tests follow one history with real sleeping; expiry while others are staged, commits out of time order and fall-back across levels are combinations they do not try.",
         anchors=A("src/disruptor/include/Transactions.hpp", [("history", "src/disruptor/include/Transactions.hpp:SettingBase::get, retireExpired, nHistory"), ("transactions", "src/disruptor/include/Transactions.hpp:SettingBase::stage, commit, retireStaged, getPendingTransactions"), ("contexts", "src/disruptor/include/Transactions.hpp:CtxSetting")], observe="values and contexts returned, pending transactions, history length, exceptions")),
    dict(id="P34", title="MDP messages survive framing; malformed ones are refused",
         statement="Every message sent in either format goes out as one multi-part message of exactly the documented frames (9 with source id, 8 without), also when the socket asks to try again, and is received with every field as it was sent. A message with the wrong number of frames, a command that is not one valid byte or a malformed topic is refused without an exception, completely consumed, and the next one is received intact. Every frame buffer is released exactly once, however frames are moved, swapped, sent or reused. mdp:// and mds:// addresses become tcp://, others are unchanged.",
         quantifier=dict(over=["inputs", "fault_sequences"], text="every message and every sequence of frames within the bounds"),
         why_tests_cant="The tests send well-formed messages over working sockets; what arrives from the network is arbitrary, and leaks or double releases show in no test.",
         anchors=A("src/zmq/include/zmq/ZmqUtils.hpp", [("send", "src/zmq/include/zmq/ZmqUtils.hpp:send, ZmqMessage"), ("receive", "src/zmq/include/zmq/ZmqUtils.hpp:receive"), ("frames", "src/zmq/include/zmq/ZmqUtils.hpp:MessageFrame"), ("endpoint", "src/core/include/MdpMessage.hpp:toZeroMQEndpoint")], observe="frames on the socket, received fields, buffers released")),
    dict(id="P35", title="Broker routes requests, replies and notifications to the right peers",
         statement="A GET or SET of a client is forwarded unchanged, once, to one worker that waits for a request of the service it names (the longest matching name), in order of arrival within the priority of its role, and waits if none does; no other message of a client reaches a worker. A reply goes unchanged to the client whose request it answers and to nobody else; a worker has one request at a time until its final reply, is not lost when its client has gone, and gets none once it was silent for longer than its liveness. Unknown services are answered with an error, unknown workers with a disconnect. A notification reaches exactly the clients subscribed to a matching topic, however others subscribe or unsubscribe. Nothing a peer sends ends the broker's loop or corrupts its state; the internal services answer as documented.",
         quantifier=dict(over=["histories", "inputs"], text="every history of messages of the peers, with any contents, within the bounds"),
         why_tests_cant="The tests follow single conversations of well-behaved peers; routing has to hold for every interleaving of peers, including ones that repeat themselves, vanish, or send what they should not.",
         anchors=A("src/majordomo/include/majordomo/Broker.hpp", [("requests", "src/majordomo/include/majordomo/Broker.hpp:processClients, dispatch, bestMatchingService, Service"), ("workers", "src/majordomo/include/majordomo/Broker.hpp:processWorker, workerWaiting, purgeWorkers, disconnectWorker"), ("notifications", "src/majordomo/include/majordomo/Broker.hpp:receiveMessage, receivePubMessage, subscribe, unsubscribe, dispatchMessageToMatchingSubscribers"), ("REST", "src/majordomo/include/majordomo/Broker.hpp:handleRestMessage")], observe="messages the broker sends on each socket, its socket options, what it hands to the REST server")),
    dict(id="P36", title="Workers answer each request once, enforce rights, notify subscribers",
         statement="A worker announces its service, calls the handler exactly once for each request with the fields as sent, and answers each with exactly one final reply that carries the request's client, id, topic and token and the handler's data or error; an exception of the handler becomes an error reply. The handler does not run for a role without the right to GET or SET. A typed worker's callback gets the value and context the client encoded, and the reply decodes to what it returned, in the encoding asked for; bodies that cannot be decoded are answered with an error. Notifications are sent exactly while a matching subscription is active. The worker sends heartbeats, reconnects to a broker that is silent or disconnects it, stops when the broker shuts down, and is not ended by malformed messages or notifications.",
         quantifier=dict(over=["inputs", "histories"], text="every request, subscription history and broker behaviour within the bounds"),
         why_tests_cant="The tests use a few requests and roles; once-only handling, the rights and the survival of the loop have to hold for any message.",
         anchors=A("src/majordomo/include/majordomo/Worker.hpp", [("requests", "src/majordomo/include/majordomo/Worker.hpp:BasicWorker::processRequest, replyFromRequest, handleDealerMessage"), ("notifications", "src/majordomo/include/majordomo/Worker.hpp:BasicWorker::receiveSubscriptionMessage, receiveNotificationMessage, notify"), ("connection", "src/majordomo/include/majordomo/Worker.hpp:BasicWorker::run, connectToBroker, disconnect"), ("typed", "src/majordomo/include/majordomo/Worker.hpp:HandlerImpl, deserialiseRequest, writeResultFull")], observe="messages the worker sends, calls of the handler, active subscriptions")),
    dict(id="P37", title="Broker name service finds registered addresses until they expire",
         statement="An address registered with the broker's name service is found by its scheme (in any case) and by the beginning of its path, also listed when no name is asked for, as long as it is refreshed within dnsTimeout times heartbeatLiveness, and disappears at the latest one dnsTimeout after that. A question, however malformed, is answered to the client once. bind() returns the public address (mdp, mds or inproc) and makes the services there known.",
         quantifier=dict(over=["inputs", "histories"], text="every question, address and time within the bounds"),
         why_tests_cant="The tests ask well-formed questions right after registration; expiry takes half a minute and malformed questions come from the network.",
         anchors=A("src/majordomo/include/majordomo/Broker.hpp", [("lookup", "src/majordomo/include/majordomo/Broker.hpp:findDnsEntry, trimmed, split, iequal, stripStart"), ("registration", "src/majordomo/include/majordomo/Broker.hpp:receiveMessage, registerWithDnsServices, bind"), ("expiry", "src/majordomo/include/majordomo/Broker.hpp:purgeDnsServices")], observe="answers of /mmi.dns, the address bind() returns")),
]
NOT_APPLICABLE = []
