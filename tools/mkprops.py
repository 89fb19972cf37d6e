#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a generator so anchors/wording stay in one readable place).
import json
H="src/include/falcon/"; PS=H+"engine/pagedstack.h"; FX=H+"futex.h"; LS="src/engine/logsystem.cpp"; LSH=H+"logsystem.h"
LG=H+"logger.h"; LGC="src/engine/logger.cpp"; LST="src/engine/logstream.cpp"; LSTH=H+"logstream.h"; LP=H+"logproxy.h"
IT=H+"engine/item.h"; ITD=H+"engine/itemdata.h"; HF=H+"engine/handlerfactory.h"; SH=H+"engine/stringhandler.h"; BH=H+"engine/bignumhandler.h"
DH=H+"engine/deephandler.h"; CO="src/engine/code.cpp"; CP="src/engine/compiler.cpp"
FUT=H+"fut/fut.h"; TC="src/fut/testcase.cpp"; UT="src/fut/unittest.cpp"; TL=H+"fut/timelapse.h"; MT="src/fut/marktime-unix.c++"
AT=H+"atomic_gcc.h"; SI=H+"singleton.h"; DI=H+"engine/distribute.h"
P=[]
def at(w):                                  # FILE:@text -> FILE:line of the first line containing the text
    f,_,t=w.partition(":@")
    if not t: return w
    n=[i+1 for i,l in enumerate(open("/repo/"+f)) if t in l]
    if not n: print("NO",w); return f
    return f"{f}:{n[0]}"
def p(id,title,stmt,over,q,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":at(w)} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":at(w)} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","The paged stack is a LIFO stack whatever its paging",
 "For every page size and preallocation of at least one, any sequence of single and multiple pushes, in-place constructions, single and multiple pops, and reads and writes of the top gives the same values, the same size and the same emptiness as an ideal unbounded stack. Paging never shows in the results: crossing a page boundary upwards or downwards, or reusing a page, changes nothing a caller can observe.",
 ["inputs","histories","configurations"],"all element values, all operation sequences, all page sizes/preallocations (bounded: up to 6 symbolic operations, page size 1..3, prealloc 1..2; large stacks up to 2001 elements)",
 "pagedstack tests use a few fixed sequences with pages far from their boundaries; they cannot cover every interleaving of push/pop around a page boundary.",
 [PS],[("page advance on a full page",PS+":@void advance()"),("step back when a page empties",PS+":@void internal_pop_one()"),("base growth",PS+":@void growBase()")],
 [("current page","page holding the top","%s:62"%PS)],["top()","pop(T&)","size()","empty()"])
p("C02","Bulk removal removes exactly the elements asked for",
 "Discarding n elements, discarding from an iterator of either direction (the designated element and everything above it), reading-and-discarding in FIFO order and clearing each remove exactly the stated elements, leave every element below untouched, and leave a stack on which later pushes, pops, iteration and size behave as if the removed elements had never existed.",
 ["inputs","histories","configurations"],"all stack contents, all counts/positions, all page sizes (bounded: up to 7 elements, page size 1..3, follow-up pushes)",
 "the tests discard at a handful of fixed positions and rarely push again afterwards, so page-boundary positions with stale content are not reached.",
 [PS],[("count discard",PS+":@void discard(size_t count)"),("iterator discard",PS+":@void internal_discard("),("clear",PS+":@void clear()"),("pop_reverse",PS+":@void pop_reverse(")],None,["size()","top()","begin()..end()"])
p("C03","Iterators visit every element exactly once in order",
 "Forward iteration visits the elements from the top to the bottom, reverse iteration from the bottom to the top, and iteration from a given depth starts that many elements below the top and goes up to it; each live element is visited exactly once and nothing else is visited, for mutable and const iterators, whether or not spare pages exist. Stepping by n equals n single steps, decrementing undoes incrementing, postfix forms return the previous position, and writing through an iterator changes exactly that element.",
 ["inputs","histories","configurations"],"all contents, sizes, depths, step counts, page layouts including spare pages (bounded: up to 6 elements, page size 1..3)",
 "the tests iterate few fixed layouts; spare pages above the current one and exact-multiple sizes are layout-specific.",
 [PS],[("forward iterator",PS+":@class iterator_base"),("reverse iterator",PS+":@class reverse_iterator_base"),("from_top",PS+":@reverse_iterator internal_from_top"),("begin/end/rbegin/rend",PS+":@iterator begin() noexcept")],None,["*it","it==end()"])
p("C04","Multi-value reads deliver the right values in the right order",
 "Peeking reads the topmost elements starting from the top, peeking in reverse and peeking from a depth read in bottom-to-top order from the stated depth, and the destination arguments receive them in exactly that order; the stack is not modified. The underlying distribution helper assigns consecutive values of any iterator to its arguments in order and reads nothing past the last one.",
 ["inputs","histories","configurations"],"all contents, depths, argument counts 1..4, page boundaries inside the range read (page size 1..3)",
 "tests read fixed values at fixed depths; ranges spanning page boundaries at every offset are not covered.",
 [PS,DI],[("peek family",PS+":@void peek(_Args"),("distribute",DI+":@distribute(")],None,["output arguments","size()"])
p("C05","Stack memory is safe, stable and fully released",
 "Growing, shrinking to fit and popping never move or change a live element, so references to it stay valid until it is removed; shrinking never changes the contents and leaves no page above the current one. Every element put in the stack is destroyed exactly once, by the time the stack is destroyed, every allocation is returned, and no operation touches memory outside live elements' pages.",
 ["inputs","histories","configurations"],"all operation sequences with shrink_to_fit interleaved, page size 1..3, prealloc 1..2, instance-counting elements",
 "leaks, double destruction and dangling references depend on the operation history and are invisible to value-comparing tests.",
 [PS],[("page reserve",PS+":@page.reserve"),("shrink_to_fit",PS+":@void shrink_to_fit()"),("stats",PS+":@void getStats(")],None,["element addresses","constructor/destructor counts","getStats()"])
p("C06","Synchronised iterators survive any concurrent modification",
 "Whatever is pushed, popped, discarded, cleared or shrunk meanwhile, a synchronised iterator designates the same position (counted from the bottom) as long as the stack still reaches it; otherwise its next use resynchronises it to the current top, or reports an error by exception if the stack is empty, without losing its position. Moving it up from the top leaves it there. It never reads a removed element or released memory, pages are not released while any synchronised iterator (including copies of it) exists, and a shrink requested meanwhile takes effect, once, when the last of them goes away. Iterators at the end position and iterators of a stack that was assigned to are not covered.",
 ["inputs","histories"],"all sequences of push/pop/discard/shrink/iterator steps (bounded), iterators at every position, iterator copies",
 "tests exercise three scripted scenarios; staleness across page boundaries, copies and deferred shrink combinations are not reached.",
 [PS],[("synchronize",PS+":@bool synchronize()"),("deferred shrink",PS+":@removeSyncIterator()"),("iterator registration",PS+":@sync_iterator_base(const sync_iterator_base& other)")],[("pending shrink","shrink asked while iterators live",PS+":@m_shrinkRequest")],["get()","++/--","getStats()"])
p("C07","A stack with a real mutex is linearizable",
 "When the stack is instantiated with a real mutex, concurrent pushes, pops, discards, clears, reads of the top, size and emptiness queries, synchronised iteration, shrink requests and copies, moves and assignments of the whole stack from several threads have no data race and produce results that some sequential order of the same operations would produce; no element is lost, duplicated or invented.",
 ["schedules","histories"],"all interleavings of 2-3 threads with up to 3 operations each at lock granularity, with race detection on every memory access",
 "no existing test shares a stack between threads at all.",
 [PS],[("lock_guard in every public operation",PS+":@std::lock_guard<_Mutex> guard(m_mutex)"),("lock-scoped iterator creation",PS+":@sync_iterator sync_begin() noexcept")],None,["final contents","values popped"])
p("C08","Copying or moving a stack yields an independent equal stack",
 "A copy-constructed or copy-assigned stack holds equal elements in the same order and is fully independent: modifying, clearing or destroying either never affects the other. A moved-to stack holds exactly the elements of its source and keeps working; nothing leaks or is destroyed twice.",
 ["inputs","histories","configurations"],"all contents up to 6 elements, page size 1..3, follow-up operations on either side",
 "no test copies a stack.",
 [PS],[("implicit/explicit copy and move of the page list and cursor",PS+":@PagedStack(const PagedStack& other)")],None,["contents of both stacks after further operations"])
p("C09","An operation that fails leaves the stack as it was",
 "If copying or constructing an element throws, or memory for a new page cannot be obtained, during any push or in-place construction, the exception reaches the caller and the stack still has exactly its previous elements, size, emptiness and top, and remains fully usable. The same holds when copying an element out fails during a peek or a read-and-discard, or when copying or assigning a whole stack fails (neither of the two stacks changes, nothing is leaked); a multiple pop that fails removes exactly the elements already delivered.",
 ["fault_sequences","histories","inputs"],"every allocation, element-construction and element-assignment failure point in any bounded history, page size 1..3",
 "tests never inject failures.",
 [PS],[("advance before construct",PS+":@void internal_insert("),("growBase",PS+":@void growBase()")],None,["size()","empty()","top()","subsequent pushes"])
p("C10","The spin lock gives mutual exclusion, visibility and progress",
 "At most one thread holds the lock at any time, everything written before a release is visible to the next holder without a data race under the C++ memory model, a free lock is eventually acquired by a contender, a release always frees it, and the locked query reports exactly whether it is held. This holds for every spin-count configuration; with a spin count of zero a contender never yields the processor, otherwise it yields, again and again, for as long as the lock stays taken.",
 ["schedules","configurations"],"all interleavings of 2-3 threads (C++ memory-model aware race check), spin counts 0,1,2,3, spurious CAS failures",
 "the existing tests sample a few real schedules on x86, which hides weak orderings and rare interleavings.",
 [FX],[("acquire CAS loop",FX+":@compare_exchange"),("waiting",FX+":@yield();"),("release store",FX+":@void unlock()")],None,["critical section overlap","plain data race"])
p("C11","The recursive spin lock counts its owner's acquisitions",
 "A thread that holds the recursive lock can take it again without blocking and it becomes free only after as many releases; other threads are excluded meanwhile and see all the owner's writes afterwards. Owner and locked queries answer truthfully for every thread, including threads that never locked; surplus releases on a free lock do nothing.",
 ["schedules","histories"],"all interleavings of 2 threads with nested lock/unlock sequences up to depth 3, single-owner depths around counter widths up to 65536",
 "the recursive lock has no concurrent test and no nesting test.",
 [FX,"src/engine/futex.cpp"],[("owner CAS",FX+":@s_thread_id == 0"),("recursion count",FX+":@free, thread_id"),("thread ids","src/engine/futex.cpp:20")],None,["isLocked()","isOwner()","critical section overlap"])
p("C12","Scalar items preserve and convert values faithfully",
 "An item built from a boolean, character, byte, 32- or 64-bit integer or floating point number reports the matching type, returns the same value when read back with its stored type, and converts to integer, boolean and text as that value: truth is being non-zero, integer conversion truncates toward zero (floating point values within the 64-bit range), and text is the usual decimal form (whatever the global locale is). Unsigned 64-bit values keep their 64 bits and convert as the signed number with those bits. This holds for every value, including limits (NaN excepted), and for default (nil) items, which are false, zero and \"nil\". Types that items do not hold are refused with an invalid_argument exception.",
 ["inputs"],"all 2^8/2^32/2^64 values (text form: all values within stated digit bounds plus symbolic limits)",
 "tests check one value per type.",
 [IT,ITD,H+"engine/inthandler.h",H+"engine/floathandler.h",H+"engine/boolhandler.h",H+"engine/nilhandler.h"],[("typed construction",IT+":@&HandlerFactory::boolHandler"),("typed get",IT+":@get("),("conversions",IT+":@bool toBool()")],None,["get<T>()","toInt/toBool/toString","handler->typeName()"])
p("C13","String and big-number items own independent values",
 "A string or big-number item holds its own copy of the value, returns exactly the same content, is true when non-empty or non-zero, and converts to the integer its content denotes; a non-numeric string never terminates the program. Copying, assigning and destroying such items in any order leaves every surviving item with its own intact value and releases each value exactly once.",
 ["inputs","histories"],"all string contents up to 5 bytes, all copy/assign/destroy sequences up to 4 steps",
 "tests construct one item of each kind and never copy one.",
 [IT,SH,BH,DH],[("deep construction",IT+":@&HandlerFactory::stringHandler"),("destruction",IT+":@~Item"),("string conversion",SH+":@toInt(")],None,["get<String>()","toInt()","allocation balance"])
p("C14","Type handlers describe and manage their values consistently",
 "Every type handler reports a distinct stable name, says truthfully whether its values are flat or can be copied flatly (scalars are flat and so copied flatly; strings and big numbers are not flat but declared flat-copyable by their handler family; other deep handlers are neither), and allocates default values that convert to that type's zero/empty/false value and that it can itself destroy, with nothing leaked and nothing freed twice; destroying a flat value is harmless.",
 ["inputs","histories"],"all handlers, allocate/convert/destroy sequences",
 "tests never call allocate or destroy.",
 [HF,DH,H+"engine/flathandler.h",H+"engine/deepflatcopyhandler.h",ITD],[("allocate/destroy",DH+":@allocate(")],None,["allocation balance","conversions of fresh values"])
p("C15","Code objects keep their source text exactly",
 "A code object returns exactly the text it was built from, whatever its length and content, and so do its copies, assignees and move targets after the original is changed or destroyed. Copying, assigning, moving (including self-assignment and use of a moved-from object's text) and destroying in any order never corrupts, leaks or double-frees memory.",
 ["inputs","histories"],"all contents up to 6 bytes incl. NUL, 19 lengths up to 70000, copy/move/assign/destroy sequences up to 4",
 "the compiler test builds one three-word source.",
 [H+"engine/code.h",CO],[("buffer construction",CO+":@Code::Code(const std::string& source"),("copy/move",CO+":@Code::Code(const Code& other)"),("toString",CO+":@Code::toString")],None,["toString()","allocation balance"])
p("C16","Compiling a stream yields its first token",
 "Compiling an input stream (in the default, non-throwing stream mode) yields code whose text is the first whitespace-delimited token of the stream, empty when there is none, for every input; reading stops right after that token and never throws or crashes, and a following compilation yields the next token.",
 ["inputs"],"all byte inputs up to 6 symbolic bytes, plus tokens of 20 lengths up to 70000 bytes with symbolic bytes",
 "one fixed source string is compiled by the test.",
 [CP,H+"engine/compiler.h"],[("token extraction",CP+":@input >> value")],None,["compile().toString()","stream position"])
p("C17","Log filters decide delivery exactly",
 "A message reaches a listener exactly when its level is within the system level at logging time, within the listener's level, the listener is enabled, and its category is empty or the listener's category filter is empty or matches the whole category. Invalid filter expressions are refused with the dedicated exception and leave the previous filter in force; filtering writes nothing anywhere else. Filters, levels and enablement may be changed while messages are being delivered, without data races, and messages logged after a change follow it; reading them meanwhile gives a previous or the new setting.",
 ["inputs","configurations","schedules"],"all level triples, enabled flags, categories of up to 3 bytes against a set of filter expressions, changes interleaved with deliveries",
 "tests check a few level pairs and one or two categories.",
 [LSH,LS],[("system level gate",LS+":@level > m_level"),("listener gate",LS+":@!listener->isDetached()"),("category match",LS+":@Listener::checkCategory"),("filter validation",LSH+":@void category( const")],None,["onMessage calls"])
p("C18","Every accepted message is delivered once, in order, intact",
 "Every message accepted while the system is running and kept running is delivered to every qualifying listener exactly once, with exactly the file, line, level, category and text it was logged with, and messages from one thread arrive in the order they were logged. This holds for any number of messages (so also when message records are recycled or the pool is exhausted) and any interleaving of producers and the delivery thread.",
 ["schedules","inputs","histories"],"all interleavings of up to 2 producers x 2-3 messages with the delivery thread; symbolic content; histories longer than the record pool",
 "tests log from one thread with sleeps and cannot cover interleavings or recycling with varied content.",
 [LS],[("queue",LS+":@m_messages.push_back(msg)"),("delivery loop",LS+":@void LogSystem::loggingThread()"),("record pool",LS+":@LogSystem::allocateMsg()")],None,["onMessage argument sequence"])
p("C19","The log service starts, stops and restarts cleanly",
 "Starting and stopping may be called any number of times in any order, from the constructor to destruction, with messages pending or not: stop always returns with no delivery in progress or to come, start resumes delivery including pending messages, and destruction releases every message, thread and listener with no leak, double release or hang. Starting twice runs one delivery thread.",
 ["schedules","histories","crash_points"],"all start/stop/log sequences up to 4-5 steps and all interleavings with the delivery thread",
 "tests start once and destroy; restart and stop-with-pending are not exercised.",
 [LS],[("termination flag",LS+":@void LogSystem::stop()"),("start",LS+":@void LogSystem::start()"),("destructor",LS+":@LogSystem::~LogSystem()")],[("terminated flag","asks the thread to exit",LSH+":@m_isTerminated;")],["onMessage after restart","thread count","allocation balance"])
p("C20","Listener registration, detachment and disabling take effect",
 "A listener receives only messages handled after it was added, none while disabled, and none logged after it is detached; detached listeners are dropped and released by the system once it handles further messages, and other listeners are unaffected. The same holds when listeners are added or detached while messages are being delivered.",
 ["schedules","histories","inputs"],"all add/enable/disable/detach/log sequences up to 5 steps with 2 listeners",
 "tests use fixed sequences with sleeps.",
 [LS,LSH],[("pending listeners",LS+":@void LogSystem::processNewListeners()"),("detach cleanup",LS+":@void LogSystem::cleanupTerminatedListeners()"),("send loop",LS+":@void LogSystem::sendMessageToListeners")],None,["onMessage calls","listener lifetime","getDiags()"])
p("C21","Diagnostics agree with what happened, without data races",
 "Once the system is idle, diagnostics report exactly the messages processed, the largest queue length reached, records created and discarded beyond the pool, the pool size (never above its stated threshold) and the pending, active and enabled listeners. Reading them concurrently with logging is free of data races.",
 ["schedules","histories"],"all log/add/detach/diag sequences up to 4 steps, and all interleavings of a reader with the delivery thread",
 "a race is invisible to the single-threaded diagnostics test.",
 [LS,LSH],[("diagnostics",LS+":@void LogSystem::getDiags"),("pool bound",LS+":@MESSAGE_POOL_THRESHOLD) {")],None,["getDiags()","race detector"])
p("C22","Log lines are composed per thread and per message",
 "A log statement or block produces one message holding the concatenation of exactly what was streamed into it, with the right level, source file and line, and the thread's category or the message's own temporary category, which never carries over to a later message. Statements above the general level produce nothing and leave no trace in later messages (their operands are still evaluated); a block left early, by break or by an exception, still produces its own message and nothing else, and one that is not entered (the general level may change at any moment) sends none; and concurrent threads never mix text, categories or levels.",
 ["inputs","schedules","configurations","histories"],"all levels/filters, symbolic streamed values, sequences of up to 3 statements, 2 threads",
 "tests check a few fixed statements from one thread.",
 [LG,LGC],[("statement guard",LG+":@class AutoEnd"),("commit",LG+":@void commit"),("thread-local composer",LGC+":@m_category{"),("temporary category",LG+":@void setTempCategory")],None,["messages received by a listener"])
p("C23","The category filter helper can be set and undone safely",
 "Setting the category filter makes messages of matching categories up to the given level reach the default listener, whatever the previous general level (which is raised no further than the given level, and never lowered), and only one such filter is active at a time. Clearing it, at any time and any number of times, restores the general level that was in force before the first filter and stops the extra delivery, including when no filter was ever set. Messages of other categories reach the default listener only as they did before, and an invalid filter expression is refused and changes nothing. Messages still pending when the filter is set or cleared may be judged either way, but nothing else may go wrong with them.",
 ["inputs","histories"],"all level pairs, set/set/clear/clear sequences up to 4 steps",
 "the tests set and clear one filter once.",
 [LGC,LG],[("filter set",LGC+":@void Logger::categoryFilter"),("filter clear",LGC+":@void Logger::clearFilter")],None,["level()","lines written by the default listener"])
p("C24","A stream listener writes each message in the documented format",
 "Each message is written to the current stream as one line: local date and time with two-digit zero-padded fields, the four letter level tag, the category in parentheses only if present, the file's base name, a colon and the line number, and the text unaltered; unknown levels are tagged with question marks. The target can be switched at any time, also while a message is being written, between owned, shared and borrowed (non-null) streams, whatever formatting or locale is set on them or globally, each line is flushed, output goes only to the latest one, ownership is respected, and before any target is set nothing is written. Listeners used by different threads at the same time do not disturb each other.",
 ["inputs","configurations","histories"],"all calendar fields, levels, line numbers, categories/files/texts up to 3 bytes; all sequences of up to 3 stream switches",
 "tests match a few formatted lines.",
 [LST,LSTH,LS],[("formatting",LST+":@onMessage("),("base name",LST+":@rfind"),("stream switch",LSTH+":@void own("),("level tags",LS+":@LogSystem::levelToString")],None,["bytes written to the stream"])
p("C25","A proxy listener forwards exactly what passes its own filter",
 "A proxy hands each message that passes its own level, enablement and category filter to the wrapped listener exactly once and unchanged, whatever the wrapped listener's own filters are, and keeps the wrapped listener alive as long as the proxy itself.",
 ["inputs","configurations"],"all level pairs, enabled flags, categories, message fields up to 2 bytes",
 "no test isolates the proxy from the wrapped listener's filters.",
 [LP,LS],[("forwarding",LP+":@onMessage(")],None,["wrapped onMessage calls"])
p("C26","Unit-test check macros judge exactly the condition they name",
 "Each comparison and boolean check macro fails its test exactly when its named condition is false for its arguments, evaluated as complete expressions, records the file, line, expression text and actual value, and stops the test body at the first failure; otherwise it has no effect. The exception checks fail exactly when the expression does not behave as named, and the floating-point checks treat values as equal exactly when they differ by less than one ten-thousandth, for any finite values and argument expressions without side effects. The unconditional failure macro always records a failure.",
 ["inputs","programs"],"all 32-bit integer pairs, strings up to 2 bytes, doubles (range-bounded), thrown/not thrown x type",
 "the framework's own tests run the macros on a few constants.",
 [FUT,TC],[("check logic",FUT+":@FALCON_TEST_CHECK_LOGIC"),("float checks",FUT+":@FLOAT"),("throw checks",FUT+":@THROW"),("failure record",TC+":@void TestCase::fail(")],None,["status()","failDesc()","failLine()"])
p("C27","A test case's status reflects what its body did",
 "After a run the case is successful exactly when set-up, body and tear-down all completed without failing or throwing and neither set-up nor the body wrote on the captured error stream (what tear-down writes there is captured, but doesn't change the outcome); a failure or exception is never lost, and the first failure is the one kept. Every run starts from a clean record. Set-up runs before the body and tear-down after it however the body ends (neither runs if set-up throws), captured output is exactly what this run wrote, and the standard streams are restored afterwards, with all that can be set on them (format, locale, tie, state, exception mask).",
 ["inputs","histories","fault_sequences"],"all combinations of set-up/body/tear-down outcome (return, fail, throw std, throw other), outputs, re-runs",
 "the framework tests cover few combinations and only single runs.",
 [TC,UT],[("run",TC+":@void TestCase::run()"),("capture",TC+":@void TestCase::beginTest("),("restore",TC+":@void TestCase::endTest(")],None,["status()","capturedOut/Err","call order"])
p("C28","The runner's verdict counts exactly the selected tests",
 "A run executes exactly the selected cases (all of them when none is selected), each once, grouped by component in the order of the components' names, and its exit status is zero exactly when all of those passed. Every registered case, selected or not, has been initialised once in a run before any case executes, and the main function tells each of them once that the suite is over. The printed failures are exactly the executed cases that failed, and the totals per component and overall agree with them. Printing a report leaves the format of the standard output as it was for the cases of a later run.",
 ["inputs","configurations","programs"],"all outcome vectors for up to 3 cases in up to 2 components, all selections",
 "the tests run fixed small suites.",
 [UT],[("grouping and run",UT+":@void UnitTest::runAllTests()"),("verdict",UT+":@!hasPassed(tcase)"),("report",UT+":@void UnitTest::report()"),("pass rule",UT+":@bool UnitTest::hasPassed")],None,["exit status","printed report","execution log"])
p("C29","Command-line options are parsed strictly and completely",
 "Each documented option takes effect exactly as documented wherever it appears; options missing their argument, unknown options, unknown test names and verbosity values that are not a number in the documented range are refused with a non-zero status before any test runs. Unless given, the suite's id and name are the program name without directory and up to its first dot. Blanks around a verbosity number are not covered.",
 ["inputs","configurations"],"all argument vectors of up to 3 words from a symbolic alphabet, symbolic verbosity text up to 3 bytes, program names up to 5 bytes",
 "tests parse a few fixed vectors.",
 [UT],[("option loop",UT+":@int UnitTest::parseParams"),("name detection",UT+":@void UnitTest::detectTestName")],None,["exit status","which tests ran","verbosity effects"])
p("C30","The XML report is well formed and says what happened",
 "For every set of results and every name or failure text in 7-bit or UTF-8 characters, the report is well-formed XML with escaped special characters, lists each executed case once under its component, and its test and failure counts, failure descriptions, files, lines and elapsed times (to the millisecond) are those of the run.",
 ["inputs","configurations"],"all outcome vectors for up to 3 cases, symbolic failure texts/names up to 2 bytes",
 "no test reads the report back.",
 [UT],[("report writer",UT+":@void UnitTest::saveToXML()")],None,["bytes of the report file"])
p("C31","Elapsed times are exact, including across midnight wrap",
 "Elapsed time between two (non-negative) marks is the difference of the marks when they are in order and wraps by one day when the second precedes the first; the clock mark equals whole milliseconds of the system time for every time of day, never truncated, and waiting lasts exactly the requested duration, whatever signals arrive meanwhile. A test whose set-up fails never reports more time than its run took.",
 ["inputs"],"all mark pairs, all system clock readings, all wait durations up to 2^33 seconds, up to 2 interrupting signals at any moment (thorough: 4)",
 "time is real in the tests, so neither wrap nor extreme readings occur.",
 [TL,MT],[("elapsed",TL+":@elapsed()"),("mark",MT+":@markTime")],None,["elapsed()","markTime()"])
p("C32","Verbosity decides exactly what the runner prints",
 "Level 0 prints nothing; level 1 and above print the summary and each failure; level 2 adds one result line for each case not already printed as a failure, level 3 announces each case, level 4 also shows captured error output and level 5 also captured standard output, while failed cases always show both above level 0.",
 ["configurations","inputs"],"all verbosity levels x case outcomes x captured output",
 "the verbosity test checks a few combinations.",
 [UT],[("end-of-case printing",UT+":@void UnitTest::endTest"),("begin",UT+":@void UnitTest::beginTest"),("report",UT+":@void UnitTest::report()")],None,["bytes on standard output"])
p("C33","Atomic helpers perform their operation atomically and return as documented",
 "Increment, decrement and addition return the new value, exchange and the bitwise operations the previous one, compare-and-set succeeds exactly on equality and changes nothing otherwise, and set and fetch store and return the value, for every 32-bit operand with wrap-around. Concurrent use never loses an update.",
 ["inputs","schedules"],"all 32-bit operands; all interleavings of 2 threads x 2 operations",
 "these helpers have no test.",
 [AT],[("atomic operations",AT+":@atomicInc")],None,["return values","final value"])
p("C34","A singleton creates exactly one instance, always the same",
 "All accessors, const and mutable, from any holder and any thread, reach one and the same instance, which is constructed exactly once on first use; writes through the mutable accessor are seen through every other one.",
 ["schedules","programs"],"all accessor sequences up to 3 steps, 2 holders, 2 threads, symbolic values",
 "the singleton test uses one thread and one holder.",
 [SI],[("function-local static",SI+":@T* get()"),("mutable accessor",SI+":@T& operator*()")],None,["instance address","construction count"])
p("C35","A stack asks its allocator for pages as stated, and keeps them",
 "A stack with a positive page size and preallocation keeps its elements in pages of exactly that size, obtained in groups of exactly the preallocation and only when every page is full; all its memory comes from the given allocator (which the accessor returns, for copies too) and goes back to it with the size it was asked with. Removing elements gives back no page; shrinking leaves only those in use (at least one). The statistics report the pages owned, the page size, the current page (from one) and the elements in it. Assignment between stacks of different allocators is not covered.",
 ["configurations","histories"],"all page sizes 1..3, preallocations 1..3, sequences of 5 operations, and the default paging around its boundaries",
 "the tests read the statistics after a few fixed fills with the standard allocator, which cannot tell where memory comes from.",
 [PS],[("page groups",PS+":@void growBase()"),("statistics",PS+":@void getStats("),("shrink",PS+":@void internal_shrink_to_fit()"),("allocator",PS+":@base_type m_base;")],None,["getStats()","get_allocator()","allocator calls"])
p("C36","Listeners may use the log service while they handle a message",
 "While it handles a message, or from its destructor when the service drops it, a listener may log, add listeners, detach, disable, re-filter or re-level itself or others, change the system level and read the diagnostics: nothing deadlocks, crashes or races; the messages it logs are delivered like any other after those already logged, once; a listener it adds receives the following messages, those it detaches, disables or filters follow that from then on (also for the message being handled, if they come later), and detached ones are released. Starting and stopping the service from a listener is not covered.",
 ["programs","schedules","configurations"],"every action on itself or another listener, from the callback or the destructor, in either registration order, with messages pending or not, interleaved with the logging thread",
 "no test's listener calls the service back.",
 [LS,LSH],[("delivery out of any lock",LS+":@void LogSystem::sendMessageToListeners"),("listeners added apart",LS+":@void LogSystem::processNewListeners()"),("release out of the lock",LS+":@ListenerList dropped")],None,["onMessage calls","listener destruction"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
