from seedlib import *
PS = 'src/include/falcon/engine/pagedstack.h'
PSH = '#include <falcon/engine/pagedstack.h>\n#include <cstdio>\n#include <vector>\n#include <string>\nusing namespace falcon;\n'
CHK = '#define CHECK(c) do { if(!(c)) { std::printf("failed: %s (line %d)\\n", #c, __LINE__); return 1; } } while(0)\n'
seed('c01-page-of-one', 'C01', [(PS, 'if(m_curBase->empty() && m_curBase != m_base.begin()) {\n         --m_curBase;', 'if(m_curBase->empty() && m_pageSize > 1 && m_curBase != m_base.begin()) {\n         --m_curBase;')],
 PSH + CHK + '''int main() { PagedStack<int> s(1, 2); s.push(1); s.push(2); s.push(3); s.pop(); CHECK(s.size() == 2); CHECK(s.size() && !s.empty());
 s.push(7); int a = 0, b = 0; CHECK(s.size() == 3); s.pop(); s.pop(); s.pop(); CHECK(s.empty()); return 0; }''',
 'a stack with pages of one element, popped and used again', 'a page of one element that empties stays current, so the stack is never empty again and the top is read from an empty page')
seed('c02-clear-lazy', 'C02', [(PS, 'while(m_curBase != m_base.begin()) {\n         m_curBase->clear();\n         --m_curBase;\n      }\n      m_curBase->clear();', 'm_curBase = m_base.begin();\n      m_curBase->clear();')],
 PSH + CHK + '''int main() { PagedStack<int> s(2, 2); for(int i = 0; i < 4; ++i) s.push(i); s.clear(); CHECK(s.empty()); for(int i = 10; i < 13; ++i) s.push(i); CHECK(s.size() == 3); int n = 0; for(auto i = s.begin(); i != s.end(); ++i) CHECK(*i == 12 - n++); CHECK(n == 3); return 0; }''',
 'a stack of more than one page, cleared and then filled past its first page', 'clear leaves the elements of the upper pages, which reappear when the stack grows again')
seed('c03-from-top', 'C03', [(PS, '''      while(depth > iBase->size()) {
         depth -= iBase->size();
         iBase--;
      }
      return reverse_iterator(''', '''      while(depth >= iBase->size() && iBase != m_base.begin()) {
         depth -= iBase->size();
         iBase--;
      }
      return reverse_iterator(''')],
 PSH + CHK + '''int main() { PagedStack<int> s(3, 2); for(int i = 0; i < 6; ++i) s.push(i); auto i = s.from_top(3); int n = 3; for(; i != s.rend() && n < 9; ++i) { CHECK(&*i >= &*s.from_top(2) - 1); CHECK(*i == n); ++n; } CHECK(n == 6); return 0; }''',
 'reverse iteration from a depth that falls exactly on the first element of a page', 'the iterator starts past the end of the page below', flags='-O1 -g -D_GLIBCXX_ASSERTIONS -fsanitize=address')
seed('c03-postfix', 'C03', [(PS, '''      reverse_iterator_base operator--(int) noexcept {
         reverse_iterator_base current = *this;
         --(*this);
         return current;''', '''      reverse_iterator_base operator--(int) noexcept {
         reverse_iterator_base current = *this;
         return --(*this), current.m_iBase == m_iBase ? current : *this;''')],
 PSH + CHK + '''int main() { PagedStack<int> s(2, 2); for(int i = 0; i < 4; ++i) s.push(i); auto i = s.rbegin(); i += 2; CHECK(*i == 2); auto j = i--; CHECK(*j == 2); CHECK(*i == 1); return 0; }''',
 'postfix decrement of a reverse iterator across a page boundary', 'it returns the new position instead of the previous one')
seed('c04-distribute', 'C04', [('src/include/falcon/engine/distribute.h', '\ttgt = *iter;\n\t++iter;\n\tdistribute(std::forward<_iterator>(iter), args...);', '\ttgt = *iter;\n\t++iter;\n\t*iter;\n\tauto rest = iter;\n\t++rest;\n\tdistribute(std::forward<_iterator>(iter), args...);')],
 '#include <cstddef>\n#include <utility>\n#include <falcon/engine/distribute.h>\n#include <cstdio>\n' + CHK + '''struct It { int* n; int at; int operator*() const { return at; } It& operator++() { ++at; if(at > *n) *n = at; return *this; } };
int main() { int steps = 0; It i{&steps, 0}; int a = -1, b = -1; falcon::distribute(i, a, b); CHECK(a == 0 && b == 1); CHECK(steps == 1); return 0; }''',
 'an iterator that cannot move past the last value to be read', 'the helper steps past the last value')
seed('c05-shrink-page', 'C05', [(PS, '''        while(iter != m_base.end()) {
           iter = m_base.erase(iter);
        }''', '''        while(iter != m_base.end()) {
           iter = m_base.erase(iter);
        }
        m_curBase->shrink_to_fit();''')],
 PSH + CHK + '''int main() { PagedStack<std::string> s(8, 2); s.push("one"); s.push("two"); const std::string* p = &s.top(); s.shrink_to_fit(); CHECK(p == &s.top()); s.push("three"); CHECK(p == &*s.from_top(2)); return 0; }''',
 'a reference to an element of the topmost page kept across a shrink', 'shrinking moves the live elements of the topmost page')
seed('c06-stale', 'C06', [(PS, 'if (m_iBase->size() > m_iData - m_iBase->begin())\n            {', 'if (m_iBase->size() >= m_iData - m_iBase->begin())\n            {')],
 PSH + CHK + '''int main() { PagedStack<int> s(4, 2); s.push(1); s.push(2); s.push(3); auto i = s.sync_begin(); int v = 0; i.get(v); CHECK(v == 3); s.pop(); i.get(v); CHECK(v == 2); return 0; }''',
 'the element under a synchronised iterator is popped, and it was the topmost', 'the iterator reads the removed element')
seed('c07-unlocked-size', 'C07', [(PS, '''      size_t count = 0;
      std::lock_guard<_Mutex> guard(m_mutex);
      auto iter = m_base.begin();''', '''      size_t count = 0;
      auto iter = m_base.begin();''')],
 PSH + '''#include <thread>\n#include <mutex>\nint main() { PagedStack<int, std::allocator, std::mutex> s(2, 2); std::thread a([&]{ for(int i = 0; i < 200; ++i) s.push(i); }); std::thread b([&]{ size_t n = 0; for(int i = 0; i < 200; ++i) n += s.size(); }); a.join(); b.join(); return 0; }''',
 'the size of a shared stack is asked while another thread modifies it', 'the size is computed without the lock: a data race', flags='-O1 -g -fsanitize=thread -DNDEBUG')
seed('c07-pop-in-two', 'C07', [(PS, '''      assert(!empty());
      std::lock_guard<_Mutex> guard(m_mutex);
      internal_pop(value, std::forward<_Args>(__args)...);''', '''      assert(!empty());
      {
         std::lock_guard<_Mutex> guard(m_mutex);
         value = m_curBase->back();
      }
      std::lock_guard<_Mutex> guard(m_mutex);
      internal_pop_one();
      internal_pop(std::forward<_Args>(__args)...);''')],
 PSH + CHK + '''#include <thread>\n#include <functional>
std::function<void()> between;
struct Mutex { int depth = 0; void lock() {} void unlock() { if(between && ++depth == 2) { auto f = between; between = nullptr; f(); } } };
int main() { PagedStack<int, std::allocator, Mutex> s(4, 2); s.push(1); s.push(2); s.push(3); int a = 0, b = 0; between = [&]{ b = s.top(); s.pop(); }; s.pop(a); if(between) { auto f = between; between = nullptr; f(); } CHECK(a != b); CHECK(a + b == 5); return 0; }''',
 'another thread pops between the reading and the removal', 'two threads get the same element, and another one is lost')
seed('c09-grow', 'C09', [(PS, '''            m_curBase--;
            growBase();
            m_curBase++;''', '''            size_t pages = m_base.size();
            growBase();
            m_curBase = m_base.begin();
            std::advance(m_curBase, pages);''')],
 PSH + CHK + '''#include <cstdlib>\n#include <new>
static long budget = -1; void* operator new(size_t n) { if(budget == 0) throw std::bad_alloc(); if(budget > 0) --budget; return std::malloc(n); } void operator delete(void* p) noexcept { std::free(p); } void operator delete(void* p, size_t) noexcept { std::free(p); }
int main() { PagedStack<int> s(2, 2); for(int i = 0; i < 4; ++i) s.push(i); budget = 0; bool thrown = false; try { s.push(4); } catch(std::bad_alloc&) { thrown = true; } budget = -1; CHECK(thrown); CHECK(s.size() == 4 && s.top() == 3); s.push(9); CHECK(s.top() == 9 && s.size() == 5); return 0; }''',
 'the allocation of a new page fails', 'the current page is past the end when the allocation fails, and the stack is unusable afterwards', flags='-O1 -g -D_GLIBCXX_ASSERTIONS')
FX = 'src/include/falcon/futex.h'
TSF = '-O1 -g -fsanitize=thread'
seed('c10-relaxed-release', 'C10', [(FX, 'm_owned.store(false, std::memory_order_release);', 'm_owned.store(false, std::memory_order_relaxed);')],
 '''#include <falcon/futex.h>\nint data; int main() { falcon::Futex<1> f; auto w = [&]{ for(int i = 0; i < 300; ++i) { f.lock(); ++data; f.unlock(); } }; std::thread a(w), b(w); a.join(); b.join(); return data == 600 ? 0 : 1; }''',
 'two threads using the lock on a machine (or a checker) that honours the weak memory order', 'what was written before the release is not visible to the next holder', flags=TSF)
seed('c11-ids', 'C11', [(FX, 's_thread_id = ++s_count;', 's_count = s_count + 1;\n         s_thread_id = s_count;')],
 '''#include <falcon/futex.h>\n#include <vector>\n#include <memory>
int main() { std::atomic<bool> bad{false}; for(int round = 0; round < 1500 && !bad; ++round) { falcon::RFutex f; std::unique_ptr<falcon::RFutex> own[4]; for(auto& o: own) o.reset(new falcon::RFutex); std::atomic<int> ready{0}, named{0}; std::vector<std::thread> t; 
 for(int i = 0; i < 4; ++i) t.emplace_back([&, i]{ ++ready; while(ready < 4); own[i]->lock(); ++named; while(named < 4); for(int k = 0; k < 4; ++k) if(k != i && own[k]->isOwner()) bad = true; ++named; while(named < 8); own[i]->unlock(); }); for(auto& x: t) x.join(); } return bad ? 1 : 0; }''',
 'two threads using any recursive lock for the first time at the same moment', 'the two threads get the same identity and both own the lock', src=['src/engine/futex.cpp'])
IT = 'src/include/falcon/engine/'
ITH = '#include <boost/multiprecision/cpp_dec_float.hpp>\n#include <stdexcept>\n#include <falcon/engine/item.h>\n#include <cstdio>\n#include <climits>\nusing namespace falcon;\n'
HF = ['src/engine/handlerfactory.cpp']
seed('c12-round', 'C12', [(IT + 'floathandler.h', 'return static_cast<int64>(data.numericValue);', 'return static_cast<int64>(data.numericValue + 0.5);')],
 ITH + CHK + '''int main() { CHECK(Item(3.14).toInt() == 3); CHECK(Item(2.75).toInt() == 2); CHECK(Item(-2.75).toInt() == -2); CHECK(Item(-0.25).toInt() == 0); return 0; }''', 'a fractional part of one half or more, or a negative number', 'conversion to integer rounds instead of truncating', src=HF)
seed('c12-narrow-text', 'C12', [(IT + 'inthandler.h', 'ss << data.int64Value;', 'ss << static_cast<long double>(data.int64Value);')],
 ITH + CHK + '''int main() { CHECK(Item((int64)42).toString() == "42"); CHECK(Item((int64)1234567).toString() == "1234567"); return 0; }''', 'integers of seven digits or more', 'the text is in exponential form', src=HF)
seed('c13-bignum-int', 'C13', [(IT + 'bignumhandler.h', 'convert_to<int64>()', 'convert_to<double>()')],
 ITH + CHK + '''int main() { CHECK(Item(BigNum(42)).toInt() == 42); CHECK(Item(BigNum("9007199254740993")).toInt() == 9007199254740993LL); return 0; }''', 'a big number beyond 2^53', 'conversion to integer loses the lowest digits', src=HF)
seed('c13-zero-string', 'C13', [(IT + 'stringhandler.h', '!reinterpret_cast<String *>(data.ptrValue)->empty()', 'reinterpret_cast<String *>(data.ptrValue)->c_str()[0] != 0')],
 ITH + CHK + '''int main() { CHECK(Item(std::string("x")).toBool()); CHECK(!Item(std::string()).toBool()); CHECK(Item(std::string(1, 0)).toBool()); return 0; }''', 'a string whose first character is NUL', 'a non-empty string is false', src=HF)
seed('c14-int-default', 'C14', [(IT + 'inthandler.h', 'return 0LL;', 'return false;')],
 ITH + CHK + '''#include <cstring>
#define DIRTY asm volatile("movq $-1,-8(%%rsp); movq $-1,-16(%%rsp); movq $-1,-24(%%rsp); movq $-1,-32(%%rsp); movq $-1,-40(%%rsp); movq $-1,-48(%%rsp); movq $-1,-56(%%rsp); movq $-1,-64(%%rsp); movq $-1,-72(%%rsp); movq $-1,-80(%%rsp); movq $-1,-88(%%rsp); movq $-1,-96(%%rsp)" ::: "memory")
int main() { for(int i = 0; i < 3; ++i) { DIRTY; ItemData d = HandlerFactory::intHandler.allocate(); CHECK(HandlerFactory::intHandler.toInt(d) == 0); } return 0; }''', 'the default value of an integer is asked on a stack that was used before', 'only one byte of the default integer is set', src=HF, flags='-O0 -g')
seed('c14-copyflat', 'C14', [(IT + 'flathandler.h', 'bool isCopyFlat() const noexcept override{ return true; }', 'bool isCopyFlat() const noexcept override{ return !isFlat(); }')],
 ITH + CHK + '''int main() { CHECK(HandlerFactory::intHandler.isCopyFlat()); CHECK(HandlerFactory::nilHandler.isCopyFlat()); return 0; }''', 'asking a flat handler if its values can be copied flatly', 'the answer is wrong', src=HF)
seed('c15-moved', 'C15', [('src/engine/code.cpp', '\tother.m_data = nullptr;\n', '')],
 '#include <falcon/engine/code.h>\n#include <cstdio>\n' + CHK + '''int main() { falcon::Code* a = new falcon::Code("some source text"); falcon::Code b(std::move(*a)); delete a; CHECK(b.toString() == "some source text"); return 0; }''', 'a code object is moved and both are destroyed', 'the data is released twice', src=['src/engine/code.cpp'], flags='-O1 -g -fsanitize=address')
seed('c16-blank', 'C16', [('src/engine/compiler.cpp', 'input >> value;', 'input >> std::ws;\n\tstd::getline(input, value, \' \');')],
 '#include <falcon/engine/compiler.h>\n#include <sstream>\n#include <cstdio>\n' + CHK + '''int main() { falcon::Compiler c; std::istringstream a("one two"); CHECK(c.compile(a).toString() == "one"); CHECK(c.compile(a).toString() == "two"); std::istringstream b("one\\ttwo\\n"); CHECK(c.compile(b).toString() == "one"); return 0; }''', 'a token ended by something else than a space', 'the token goes on over tabs and line ends', src=['src/engine/code.cpp', 'src/engine/compiler.cpp'])
LS = 'src/engine/logsystem.cpp'; LSH = 'src/include/falcon/logsystem.h'
LH = '''#include <falcon/logsystem.h>\n#include <falcon/logger.h>\n#include <cstdio>\n#include <vector>\n#include <sstream>\nusing namespace falcon;
struct Rec: LogSystem::Listener { std::mutex m; std::vector<LogSystem::Message> got; void onMessage(const LogSystem::Message& x) override { std::lock_guard<std::mutex> g(m); got.push_back(x); } size_t n() { std::lock_guard<std::mutex> g(m); return got.size(); } };
static bool waitFor(Rec& r, size_t n) { for(int i = 0; i < 3000 && r.n() < n; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1)); return r.n() >= n; }
static void received(LogSystem& l, size_t n) { LogSystem::Diags d; for(int i = 0; i < 3000; ++i) { l.getDiags(d); if(d.m_msgReceived >= n) break; std::this_thread::sleep_for(std::chrono::milliseconds(1)); } std::this_thread::sleep_for(std::chrono::milliseconds(30)); }
'''
seed('c17-search', 'C17', [(LS, 'return std::regex_match(cat, m_catRegex);', 'return std::regex_search(cat, m_catRegex, std::regex_constants::match_continuous);')],
 LH + CHK + '''int main() { auto r = std::make_shared<Rec>(); r->category("net"); CHECK(r->checkCategory("net")); CHECK(!r->checkCategory("disk")); CHECK(!r->checkCategory("network")); return 0; }''', 'a category that begins with a text matching the filter', 'filters match prefixes of categories', src=LOG)
seed('c17-bad-filter', 'C17', [(LSH, '''  			  m_catRegex = std::regex(regex_cat);
  			  m_category = regex_cat;'''.replace('  \t', '\t').replace('\t\t\t', '\t\t\t'), '''XX''')] if False else [(LSH, 'm_catRegex = std::regex(regex_cat);\n', 'm_category.clear();\n\t\t\t  m_catRegex = std::regex(regex_cat);\n')],
 LH + CHK + '''int main() { auto r = std::make_shared<Rec>(); r->category("net"); bool thrown = false; try { r->category("(["); } catch(LogSystem::InvalidCategory&) { thrown = true; } CHECK(thrown); CHECK(r->category() == "net"); CHECK(!r->checkCategory("disk")); return 0; }''', 'an invalid filter set when another one was in force', 'the previous filter is lost', src=LOG)
seed('c18-pool-check', 'C18', [(LS, '''	{
		std::lock_guard<std::mutex> guard(m_mtxPool);
		if(!m_pool.empty()) {
			Message* msg = m_pool.back();
			m_pool.pop_back();
			return msg;
		}
	}
	m_unpooled++;''', '''	if(!m_pool.empty()) {
		std::lock_guard<std::mutex> guard(m_mtxPool);
		Message* msg = m_pool.back();
		m_pool.pop_back();
		return msg;
	}
	m_unpooled++;''')],
 LH + '''int main() { LogSystem l; auto r = std::make_shared<Rec>(); l.addListener(r); auto w = [&]{ for(int i = 0; i < 100; ++i) l.log("f", i, LogSystem::INFO, "c", "text"); }; std::thread a(w), b(w); a.join(); b.join(); received(l, 200); return r->n() == 200 ? 0 : 1; }''', 'two producers when one record is left in the pool', 'the pool is looked at without its lock: both take the last record', src=LOG, flags=TSF)
seed('c18-recycle-early', 'C18', [(LS, '''		// Now send the message
		sendMessageToListeners(msg);

		// ... or remove the dead ones?
		cleanupTerminatedListeners();

		// give back to the pool
		disposeMsg(msg);''', '''		// give back to the pool
		disposeMsg(msg);

		// Now send the message
		sendMessageToListeners(msg);

		// ... or remove the dead ones?
		cleanupTerminatedListeners();''')],
 LH + '''struct Slow: Rec { LogSystem* l; bool first = true; void onMessage(const LogSystem::Message& x) override { if(first) { first = false; for(int i = 0; i < 66; ++i) l->log("g", 2, LogSystem::WARN, "d", "second"); } Rec::onMessage(x); } };
int main() { LogSystem l; auto r = std::make_shared<Slow>(); r->l = &l; l.addListener(r); l.log("f", 1, LogSystem::INFO, "c", "first"); if(!waitFor(*r, 67)) return 1; std::lock_guard<std::mutex> g(r->m); return r->got[0].m_message == "first" && r->got[0].m_line == 1 ? 0 : 1; }''', 'a message logged while another one is being delivered', 'the record is reused while the listeners read it', src=LOG)
seed('c19-pending-leak', 'C19', [(LS, '''	// delete the pending messages
	for(auto* message: m_messages){
		delete message;
	}
''', '''	// the pending messages go back to the pool
	for(auto* message: m_messages){
		if(m_pool.size() < MESSAGE_POOL_THRESHOLD) {
			m_pool.push_back(message);
		}
	}
''')],
 '''#include <cstdlib>\n#include <new>\n#include <atomic>
std::atomic<long> live{0}; void* operator new(size_t n) { ++live; return std::malloc(n); } void operator delete(void* p) noexcept { if(p) --live; std::free(p); } void operator delete(void* p, size_t) noexcept { if(p) --live; std::free(p); }
''' + LH + CHK + '''int main() { { LogSystem l(false); for(int i = 0; i < 70; ++i) l.log("f", 1, LogSystem::INFO, "", "a"); } long base = live; { LogSystem l(false); for(int i = 0; i < 70; ++i) l.log("f", 1, LogSystem::INFO, "", "a"); } CHECK(live == base); long b2 = live; { LogSystem l(false); } CHECK(live == b2); CHECK(live < 20); return 0; }''', 'more messages pending at destruction than the pool holds', 'the exceeding messages are leaked', src=LOG)
seed('c19-start-unlocked', 'C19', [(LS, '''	std::lock_guard<std::mutex> guard(m_mtxThread);
	if(m_logThread == 0) {
		m_mtxMessage.lock();''', '''	if(m_logThread == 0) {
		std::lock_guard<std::mutex> guard(m_mtxThread);
		m_mtxMessage.lock();''')],
 LH + '''int main() { LogSystem l(false); std::thread a([&]{ l.start(); l.stop(); }), b([&]{ l.start(); l.stop(); }); a.join(); b.join(); return 0; }''', 'two threads starting the service together', 'two delivery threads are started, or the flag is read in a data race', src=LOG, flags=TSF)
seed('c21-pool-bound', 'C21', [(LS, 'if(m_pool.size() < MESSAGE_POOL_THRESHOLD) {', 'if(m_pool.size() <= MESSAGE_POOL_THRESHOLD) {')],
 LH + CHK + '''int main() { LogSystem l(false); for(int i = 0; i < 66; ++i) l.log("f", 1, LogSystem::INFO, "", "a"); l.start(); received(l, 66); LogSystem::Diags d; l.getDiags(d); CHECK(d.m_poolSize <= LogSystem::MESSAGE_POOL_THRESHOLD); CHECK(d.m_msgsDiscarded == 2); return 0; }''', 'more messages pending at once than the pool holds', 'the pool grows beyond its threshold', src=LOG)
seed('c21-queue-max', 'C21', [(LS, '''	m_messages.push_back(msg);
	if(m_messages.size() > m_maxMsgQueueSize) {
		m_maxMsgQueueSize = m_messages.size();
	}''', '''	if(m_messages.size() >= m_maxMsgQueueSize) {
		m_maxMsgQueueSize++;
	}
	m_messages.push_back(msg);''')] if False else [(LS, 'm_maxMsgQueueSize = m_messages.size();', 'm_maxMsgQueueSize++;'), (LS, 'if(m_messages.size() > m_maxMsgQueueSize) {', 'if(m_messages.size() >= m_maxMsgQueueSize) {')],
 LH + CHK + '''int main() { LogSystem l; l.stop(); for(int i = 0; i < 3; ++i) l.log("f", 1, LogSystem::INFO, "", "a"); l.start(); received(l, 3); for(int k = 0; k < 4; ++k) { l.stop(); for(int i = 0; i < 3; ++i) l.log("f", 1, LogSystem::INFO, "", "a"); l.start(); received(l, 6 + 3 * k); } LogSystem::Diags d; l.getDiags(d); CHECK(d.m_maxMsgQueueSize == 3); return 0; }''', 'the queue reaching the same greatest length more than once', 'the reported greatest length is more than what was reached', src=LOG)
LG = 'src/engine/logger.cpp'; LGH = 'src/include/falcon/logger.h'
seed('c22-shared-line', 'C22', [(LGH, 'static thread_local int m_msgLine;', 'static int m_msgLine;'), (LG, 'thread_local int Logger::m_msgLine{0};', 'int Logger::m_msgLine{0};')],
 LH + CHK + '''int main() { auto r = std::make_shared<Rec>(); LOGGER.addListener(r); LOGGER.start(); std::atomic<int> step{0}; int line = 0;
 std::thread a([&]{ line = __LINE__; LOG_BLOCK_INFO { LOGGER << "outer"; step = 1; while(step != 2); } step = 3; }); std::thread b([&]{ while(step != 1); LOG_BLOCK_INFO { LOGGER << "inner"; step = 2; while(step != 3); } }); a.join(); b.join(); CHECK(waitFor(*r, 2)); std::lock_guard<std::mutex> g(r->m);
 for(auto& m: r->got) { std::printf("%s %d\\n", m.m_message.c_str(), m.m_line); CHECK(m.m_line == line); } return 0; }'''.replace("std::thread b([&]{ while(step != 1); LOG_BLOCK_INFO { LOGGER", "std::thread b([&]{ while(step != 1);\n LOG_BLOCK_INFO { LOGGER").replace("CHECK(m.m_line == line)", "CHECK(m.m_line == (m.m_message == \"outer\" ? line : line + 1))"), 'two threads composing a message at the same time', 'the line of one message is that of the other', src=LOG)
seed('c22-shared-category', 'C22', [(LGH, 'static thread_local std::string m_category;', 'static std::string m_category;'), (LG, 'thread_local std::string Logger::m_category{""};', 'std::string Logger::m_category{""};')],
 LH + CHK + '''int main() { auto r = std::make_shared<Rec>(); LOGGER.addListener(r); LOGGER.start(); LOGGER.setCategory("mine"); std::thread([]{ LOGGER.setCategory("other"); LOG_INFO << "b"; }).join(); LOG_INFO << "a"; CHECK(waitFor(*r, 2)); std::lock_guard<std::mutex> g(r->m); CHECK(r->got[1].m_category == "mine"); return 0; }''', 'two threads with a category of their own', 'threads share their category', src=LOG)
seed('c23-lower', 'C23', [(LG, '\tif(l > m_proxyBaseLevel) {', '\tif(l != m_proxyBaseLevel) {')],
 LH + CHK + '''int main() { auto r = std::make_shared<Rec>(); std::ostringstream o; LOGGER.defaultListener()->writeOn(&o); LOGGER.addListener(r); LOGGER.start(); LOGGER.level(LLINFO); LOGGER.categoryFilter("net", LLERR); CHECK(LOGGER.level() == LLINFO); LOG_INFO << "plain"; received(LOGGER, 1); CHECK(r->n() == 1); LOGGER.stop(); return 0; }''', 'a category filter with a lower level than the general one', 'the general level is lowered, and ordinary messages are lost', src=LOG)
seed('c24-minutes', 'C24', [('src/engine/logstream.cpp', '''		<< local_tm.tm_hour << ':'
		<< std::setfill('0') << std::setw(2)
''', '''		<< local_tm.tm_hour << ':'
''')],
 LH + CHK + '''extern "C" tm* localtime_r(const time_t*, tm* t) { *t = tm(); t->tm_year = 126; t->tm_mon = 0; t->tm_mday = 2; t->tm_hour = 3; t->tm_min = 4; t->tm_sec = 5; return t; }
extern "C" tm* localtime(const time_t* c) { static tm t; return localtime_r(c, &t); }
int main() { std::ostringstream o; LogStreamListener l; l.writeOn(&o); l.onMessage(LogSystem::Message("/a/b.c", 7, LogSystem::INFO, "", "text")); CHECK(o.str() == "2026-01-02 03:04:05 [INFO] b.c:7 text\\n"); return 0; }''', 'the first ten minutes of an hour', 'the minutes are written with one digit', src=LOG)
seed('c24-switch', 'C24', [('src/include/falcon/logstream.h', '''		m_pstream = out;
		m_pout = out.get();''', '''		m_pstream = out;
		if(!m_uptrStream) {
			m_pout = out.get();
		}''')],
 LH + CHK + '''int main() { LogStreamListener l; auto a = new std::ostringstream; std::unique_ptr<std::ostream> u(a); l.own(u); auto s = std::make_shared<std::ostringstream>(); l.share(s); l.onMessage(LogSystem::Message("b.c", 7, LogSystem::INFO, "", "text")); CHECK(!s->str().empty()); return 0; }''', 'switching from an owned to a shared stream', 'output keeps going to the owned stream', src=LOG)
seed('c25-enabled', 'C25', [('src/include/falcon/logproxy.h', 'm_other->onMessage(msg);', 'if(m_other->isEnabled()) {\n    \t\tm_other->onMessage(msg);\n    \t}')],
 LH + CHK + '''int main() { auto r = std::make_shared<Rec>(); r->enable(false); LogProxyListener p(r); p.onMessage(LogSystem::Message("f", 1, LogSystem::INFO, "", "a")); CHECK(r->n() == 1); return 0; }''', 'a proxy of a disabled listener', 'the message is not forwarded', src=LOG)
FH = 'src/include/falcon/fut/fut.h'
FP = '''#define FALCON_TEST_DONT_DEFINE_TEST\n#include <falcon/fut/fut.h>\n#include <cstdio>\n#include <cstring>\n#include <fstream>\n#include <functional>\n#include <iostream>\n#include <sstream>\nusing namespace falcon::testing;
struct T: TestCase { std::function<void()> s, b, d; void SetUp() override { if(s) s(); } void test() override { if(b) b(); } void TearDown() override { if(d) d(); } using TestCase::fail; using TestCase::checkFail; };
'''
seed('c26-parentheses', 'C26', [(FH, 'if(!( (_EXPECTED_) _CHECK_ (_ACTUAL_) )) {', 'if(!( _EXPECTED_ _CHECK_ (_ACTUAL_) )) {')],
 FP + CHK + '''struct A: TestCase { int m; void test() override { EXPECT_EQ(m & 1, 1); } };
int main() { A a; a.m = 3; a.beginTest(true); a.run(); a.endTest(true); CHECK(a.status() == TestCase::SUCCESS); a.m = 2; a.beginTest(true); a.run(); a.endTest(true); CHECK(a.status() == TestCase::FAIL); A c; struct B: TestCase { int m; void test() override { EXPECT_EQ(m ? 1 : 2, 7); } } b; b.m = 1; b.beginTest(true); b.run(); b.endTest(true); CHECK(b.status() == TestCase::FAIL); return 0; }''', 'an expected value made of an operator weaker than the comparison', 'the condition judged is not the one written', src=FUT)
seed('c26-streq-nul', 'C26', [(FH, '#define EXPECT_STREQ( _EXPECTED_, _ACTUAL_) FALCON_TEST_CHECK_LOGIC(std::string(_EXPECTED_),==,std::string(_ACTUAL_))', '#define EXPECT_STREQ( _EXPECTED_, _ACTUAL_) FALCON_TEST_CHECK_LOGIC(std::string(_EXPECTED_),==,std::string(_ACTUAL_).substr(0, std::string(_EXPECTED_).size()))')],
 FP + CHK + '''struct A: TestCase { std::string x; void test() override { EXPECT_STREQ("ab", x); } };
int main() { A a; a.x = "ab"; a.beginTest(true); a.run(); a.endTest(true); CHECK(a.status() == TestCase::SUCCESS); a.x = "abc"; a.beginTest(true); a.run(); a.endTest(true); CHECK(a.status() == TestCase::FAIL); return 0; }''', 'a longer actual string that begins with the expected one', 'the two are considered equal', src=FUT)
TC = 'src/fut/testcase.cpp'; UT = 'src/fut/unittest.cpp'
seed('c27-setup-lost', 'C27', [(TC, '      SetUp();\n', '      SetUp();\n      p->status = NONE;\n')],
 FP + CHK + '''int main() { T t; t.s = [&]{ t.checkFail("f", 1, "setup", ""); }; t.beginTest(true); t.run(); t.endTest(true); CHECK(t.status() == TestCase::FAIL); return 0; }''', 'a check failing in SetUp', 'the failure is forgotten', src=FUT)
seed('c28-copy', 'C28', [(UT, '   for(auto& itcat: p->componentToPerform) {\n      auto& component = itcat.second;\n      component.lapse.markBegin();', '   for(auto itcat: p->componentToPerform) {\n      auto& component = itcat.second;\n      component.lapse.markBegin();')],
 FP + CHK + '''int main() { T a, b; a.b = [&]{ a.checkFail("f", 1, "bad", ""); }; UnitTest u; u.setVerbosity(UnitTest::REPORT_FAILURE); u.addTestCase("One", "a", &a); u.addTestCase("Two", "b", &b); std::ostringstream o; auto old = std::cout.rdbuf(o.rdbuf()); int r = u.performUnitTests(); std::cout.rdbuf(old); CHECK(r != 0);
 std::string s = o.str(); auto p = s.find("Component One"); CHECK(p != std::string::npos); auto l = s.substr(p, s.find("\\n", p) - p); CHECK(l.find("FAILED") != std::string::npos); return 0; }''', 'a failing case in a run of several components', 'the report says that the failed component passed', src=FUT)
seed('c29-prefix', 'C29', [(UT, 'else if(opt == "-c") {', 'else if(opt.compare(0, 2, "-c") == 0) {')],
 FP + CHK + '''int main() { auto run = [](const char* w) { bool ran = false; T a; a.b = [&]{ ran = true; }; UnitTest* u = new UnitTest; u->setVerbosity(UnitTest::SILENT); u->addTestCase("One", "a", &a); std::string p = "prog", x = w; char* v[] = {&p[0], &x[0], nullptr}; std::ostringstream o; auto old = std::cout.rdbuf(o.rdbuf()), olde = std::cerr.rdbuf(o.rdbuf()); int r = u->main(2, v); std::cout.rdbuf(old); std::cerr.rdbuf(olde); return r != 0 && !ran; };
 CHECK(!run("-c")); CHECK(run("-z")); CHECK(run("-cz")); return 0; }''', 'an unknown option that begins as a known one', 'it is accepted', src=FUT)
seed('c30-error', 'C30', [(UT, '         if(!hasPassed(tcasep)) {\n            fout', '         if(tcasep->status() == TestCase::FAIL) {\n            fout')],
 FP + CHK + '''int main() { T a, b; a.b = []{ throw std::runtime_error("boom"); }; std::string f = "report.xml"; { UnitTest* u = new UnitTest; u->addTestCase("One", "a", &a); u->addTestCase("One", "b", &b); std::string p = "prog", q = "-q", x = "-x"; char* v[] = {&p[0], &q[0], &x[0], &f[0], nullptr}; CHECK(u->main(4, v) != 0); }
 std::ifstream in(f); std::stringstream s; s << in.rdbuf(); CHECK(s.str().find("failures=\\"1\\"") != std::string::npos); CHECK(s.str().find("boom") != std::string::npos); return 0; }''', 'a case that ends with an exception', 'the report counts a failure that it does not describe', src=FUT)
seed('c31-zero', 'C31', [('src/include/falcon/fut/timelapse.h', 'return m_begin > m_end\n', 'return m_begin >= m_end\n')],
 '#include <falcon/types.h>\n#include <falcon/fut/timelapse.h>\n#include <cstdio>\n' + CHK + '''int main() { falcon::testing::TimeLapse t; t.m_begin = 10; t.m_end = 25; CHECK(t.elapsed() == 15); t.m_begin = 20; t.m_end = 10; CHECK(t.elapsed() == 24*3600*1000 - 10); t.m_begin = t.m_end = 5; CHECK(t.elapsed() == 0); return 0; }''', 'two marks at the same millisecond', 'a whole day is reported', src=FUT)
AG = 'src/include/falcon/atomic_gcc.h'
seed('c33-exchange', 'C33', [(AG, 'return (int32) __sync_lock_test_and_set( &atomic, value );', 'int32 previous = atomicFetch( atomic );\n   atomicSet( atomic, value );\n   return previous;')],
 '''#include <falcon/types.h>\n#include <falcon/atomic_gcc.h>\n#include <thread>\n#include <atomic>\nint main() { falcon::atomic_int v = 0; std::atomic<long> sum{0}; long given = 0; const int N = 300000; for(int r = 0; r < 10; ++r) { auto w = [&](int base) { long s = 0; for(int i = 0; i < N; ++i) s += falcon::atomicExchange(v, base + (i & 1023)); sum += s; }; std::thread a(w, 1), b(w, 5000); a.join(); b.join(); for(int i = 0; i < N; ++i) given += 5001 + 2 * (i & 1023); } return sum + v == given ? 0 : 1; }''', 'two threads exchanging the same value', 'both get the same previous value and one is lost')
seed('c34-lazy', 'C34', [('src/include/falcon/singleton.h', '\t\tstatic T inst;\n\t\treturn &inst;', '\t\tstatic T* inst = nullptr;\n\t\tif(!inst) {\n\t\t\tinst = new T;\n\t\t}\n\t\treturn inst;')],
 '''#include <falcon/singleton.h>\n#include <thread>\n#include <atomic>\n#include <chrono>\nstd::atomic<int> built{0}; struct X { X() { ++built; std::this_thread::sleep_for(std::chrono::milliseconds(200)); } }; int main() { falcon::Singleton<X> s; X *p = 0, *q = 0; std::thread a([&]{ p = s.get(); }), b([&]{ q = s.get(); }); a.join(); b.join(); return built == 1 && p == q ? 0 : 1; }''', 'two threads using the singleton first at the same time', 'it is constructed twice')
seed('c02-pop-reverse-page', 'C02', [(PS, 'internal_discard(start.m_iBase, start.m_iData);\n   }', 'if(start.m_iBase == m_curBase) {\n         m_curBase->resize(m_curBase->size() - sizeof...(__args));\n         return;\n      }\n      internal_discard(start.m_iBase, start.m_iData);\n   }')],
 PSH + CHK + """int main() { PagedStack<int> s(2, 2); for(int i = 0; i < 4; ++i) s.push(i); int a = 0, b = 0; s.pop_reverse(a, b); CHECK(a == 2 && b == 3); CHECK(s.size() == 2); CHECK(!s.empty()); int n = 0; s.pop(n); CHECK(n == 1); s.pop(n); CHECK(n == 0); CHECK(s.empty()); return 0; }""",
 'reading and discarding all the elements of the topmost page', 'the emptied page stays the current one', flags='-O1 -g -D_GLIBCXX_ASSERTIONS')
seed('c10-relaxed-acquire', 'C10', [(FX, """            std::memory_order_acq_rel,
            std::memory_order_relaxed) || isOwned ) {""", """            std::memory_order_release,
            std::memory_order_relaxed) || isOwned ) {""")],
 """#include <falcon/futex.h>\n#include <thread>\nint data; int main() { falcon::Futex<0> f; auto w = [&]{ for(int i = 0; i < 300; ++i) { f.lock(); ++data; f.unlock(); } }; std::thread a(w), b(w); a.join(); b.join(); return data == 600 ? 0 : 1; }""",
 'two threads using the lock on a machine (or a checker) that honours the weak memory order', 'taking the lock does not acquire what its previous holder wrote', flags=TSF)
seed('c10-spin-out', 'C10', [(FX, """         isOwned = false;

         if(spinCount && --sc == 0) {""", """         isOwned = false;

         if(spinCount && sc-- == 0) {
            sc = spinCount;
            m_owned.store(false, std::memory_order_relaxed);
            continue;
         }
         if(spinCount > 1 && sc == 1) {""")] if False else [(FX, 'return m_owned.load(std::memory_order_acquire);', 'bool expected = false;\n      if(m_owned.compare_exchange_strong(expected, true, std::memory_order_acq_rel)) {\n         m_owned.store(false, std::memory_order_release);\n         return false;\n      }\n      return true;')],
 """#include <falcon/futex.h>\n#include <thread>\nint main() { falcon::Futex<0> f; std::atomic<bool> stop{false}, wrong{false}; std::thread a([&]{ while(!stop) f.isLocked(); }); for(int i = 0; i < 3000000 && !wrong; ++i) { if(f.isLocked()) wrong = true; } stop = true; a.join(); return wrong ? 1 : 0; }""",
 'the locked query asked by two threads at once', 'a free lock is reported as held')
seed('c20-unlocked-look', 'C20', [(LS, """void LogSystem::processNewListeners() noexcept
{
""", """void LogSystem::processNewListeners() noexcept
{
	if(m_pendingListeners.empty()) {
		return;
	}
""")],
 LH + """int main() { for(int k = 0; k < 20; ++k) { LogSystem l; std::thread a([&]{ for(int i = 0; i < 1000; ++i) { l.log("f", 1, LogSystem::INFO, "", "a"); if(i % 8 == 0) std::this_thread::sleep_for(std::chrono::microseconds(20)); } }), b([&]{ for(int i = 0; i < 100; ++i) { l.addListener(std::make_shared<Rec>()); std::this_thread::sleep_for(std::chrono::microseconds(50)); } }); a.join(); b.join(); } return 0; }""",
 'a listener added while messages are being delivered', 'the list of new listeners is looked at without its lock', src=LOG, flags=TSF)
seed('c20-one-batch', 'C20', [(LS, '	std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),\n			std::back_inserter(m_activeListeners));\n	m_pendingListeners.clear();', '	if(m_activeListeners.empty()) {\n		m_activeListeners.swap(m_pendingListeners);\n		return;\n	}\n	std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),\n			std::front_inserter(m_activeListeners));\n	m_pendingListeners.resize(m_pendingListeners.size() > 1 ? 1 : 0);')],
 LH + CHK + """int main() { LogSystem l; auto a = std::make_shared<Rec>(), b = std::make_shared<Rec>(), c = std::make_shared<Rec>(); l.addListener(a); l.log("f", 1, LogSystem::INFO, "", "a"); received(l, 1); l.addListener(b); l.addListener(c); l.log("f", 1, LogSystem::INFO, "", "b"); received(l, 2); l.log("f", 1, LogSystem::INFO, "", "c"); received(l, 3); CHECK(a->n() == 3); CHECK(b->n() == 2); CHECK(c->n() == 2); return 0; }""",
 'two listeners added together after others were already active', 'one of them is added twice and receives messages twice', src=LOG)
seed('c32-error-level', 'C32', [(UT, 'if(p->verbosity > SILENT && tc->status() == TestCase::ERROR) {', 'if(p->verbosity >= REPORT_STATUS && tc->status() == TestCase::ERROR) {')],
 FP + CHK + """int main() { T a; a.b = []{ throw std::runtime_error("boom"); }; UnitTest u; u.setVerbosity(UnitTest::REPORT_FAILURE); u.addTestCase("One", "a", &a); std::ostringstream o; auto old = std::cout.rdbuf(o.rdbuf()); u.performUnitTests(); std::cout.rdbuf(old); CHECK(o.str().find("boom") != std::string::npos); return 0; }""", 'a case that ends with an exception at verbosity level 1', 'the error is not printed', src=FUT)
seed('c32-stderr-level', 'C32', [(UT, 'p->verbosity >= REPORT_STDERR ||', 'p->verbosity > REPORT_STDERR ||')],
 FP + CHK + """int main() { T a; a.b = []{ std::cerr << "seen"; }; struct E: T { void test() override { std::cerr << "seen"; } }; UnitTest u; u.setVerbosity(UnitTest::REPORT_STDERR); u.addTestCase("One", "a", &a); std::ostringstream o; a.d = [&]{ a.b = nullptr; }; auto old = std::cout.rdbuf(o.rdbuf()); u.performUnitTests(); std::cout.rdbuf(old); CHECK(o.str().find("seen") != std::string::npos);
 T c; c.d = []{ std::cerr << "late"; }; UnitTest v; v.setVerbosity(UnitTest::REPORT_STDERR); v.addTestCase("One", "c", &c); o.str(""); old = std::cout.rdbuf(o.rdbuf()); v.performUnitTests(); std::cout.rdbuf(old); CHECK(o.str().find("late") != std::string::npos); return 0; }""", 'a successful case that writes on the error stream in tear-down, at verbosity level 4', 'its error output is not shown', src=FUT)
seed('c35-shrink-spare', 'C35', [(PS, '        typename base_type::iterator iter = m_curBase;\n        ++iter;\n', '        typename base_type::iterator iter = m_curBase;\n        ++iter;\n        if(iter != m_base.end() && m_curBase->size() == m_pageSize) {\n           ++iter;\n        }\n')],
 PSH + CHK + """int main() { PagedStack<int> s(2, 4); for(int i = 0; i < 3; ++i) s.push(i); s.shrink_to_fit(); size_t b = 0, d = 0, cb = 0, cd = 0; s.getStats(b, d, cb, cd); CHECK(b == 2); s.push(3); PagedStack<int> t(2, 4); t.push(1); t.push(2); t.shrink_to_fit(); t.getStats(b, d, cb, cd); CHECK(b == 1); return 0; }""",
 'a stack whose topmost page is exactly full is shrunk', 'a spare page is kept')
seed('c06-shrink-again', 'C06', [(PS, '         m_shrinkRequest = false;\n         const_cast<PagedStack*>(this)->internal_shrink_to_fit();', '         const_cast<PagedStack*>(this)->internal_shrink_to_fit();')],
 PSH + CHK + """int main() { PagedStack<int> s(2, 4); for(int i = 0; i < 3; ++i) s.push(i); { auto i = s.sync_begin(); s.shrink_to_fit(); } size_t b = 0, d = 0, cb = 0, cd = 0; s.getStats(b, d, cb, cd); CHECK(b == 2); s.push(3); s.push(4); s.getStats(b, d, cb, cd); CHECK(b == 6); { auto i = s.sync_begin(); } s.getStats(b, d, cb, cd); CHECK(b == 6); return 0; }""",
 'a second synchronised iterator, after a shrink request that the first one deferred', 'the stack is shrunk again though nobody asked for it')
seed('c36-locked-delivery', 'C36', [(LS, '	m_msgReceived++;\n	for(auto listener: m_activeListeners) {', '	m_msgReceived++;\n	std::lock_guard<std::mutex> guard(m_mtxListeners);\n	for(auto& listener: m_activeListeners) {')],
 LH + CHK + """#include <unistd.h>\nstruct Adder: Rec { LogSystem* l; std::shared_ptr<Rec> other; void onMessage(const LogSystem::Message& m) override { if(other) { l->addListener(other); other.reset(); } Rec::onMessage(m); } };
int main() { alarm(20); LogSystem l; auto a = std::make_shared<Adder>(); auto b = std::make_shared<Rec>(); a->l = &l; a->other = b; l.addListener(a); l.log("f", 1, LogSystem::INFO, "", "a"); CHECK(waitFor(*a, 1)); l.log("f", 2, LogSystem::INFO, "", "b"); CHECK(waitFor(*b, 1)); CHECK(b->n() == 1); return 0; }""",
 'a listener that adds another listener while it handles a message', 'the delivery thread deadlocks', src=LOG)
seed('c36-levels-first', 'C36', [(LS, '	for(auto listener: m_activeListeners) {\n', '	std::deque<LEVEL> levels;\n	for(auto& listener: m_activeListeners) {\n		levels.push_back(listener->level());\n	}\n	for(auto listener: m_activeListeners) {\n		LEVEL level = levels.front();\n		levels.pop_front();\n'), (LS, '&& listener->level() >= msg->m_level', '&& level >= msg->m_level')],
 LH + CHK + """struct Muter: Rec { std::shared_ptr<Rec> other; void onMessage(const LogSystem::Message& m) override { Rec::onMessage(m); if(m.m_line == 2) other->level(LogSystem::CRITICAL); } };
int main() { LogSystem l(false); auto a = std::make_shared<Muter>(); auto b = std::make_shared<Rec>(); a->other = b; l.addListener(a); l.addListener(b); for(int i = 1; i < 4; ++i) l.log("f", i, LogSystem::INFO, "", "a"); l.start(); CHECK(waitFor(*a, 3)); l.stop(); CHECK(b->n() == 1); return 0; }""",
 'a listener that changes the level of a later one while it handles a message', 'the message being delivered is still sent with the previous level', src=LOG)
seed('c19-unlocked-join', 'C19', [(LS, '	m_logThread->join();\n	delete m_logThread;\n	m_logThread = 0;', '	std::thread* thread = m_logThread;\n	m_logThread = 0;\n	m_mtxThread.unlock();\n	thread->join();\n	m_mtxThread.lock();\n	delete thread;')],
 LH + CHK + """#include <unistd.h>\nstruct Slow: Rec { void onMessage(const LogSystem::Message& m) override { Rec::onMessage(m); std::this_thread::sleep_for(std::chrono::milliseconds(300)); } };
int main() { alarm(20); { LogSystem l; auto a = std::make_shared<Slow>(); l.addListener(a); l.log("f", 1, LogSystem::INFO, "", "a"); CHECK(waitFor(*a, 1)); std::thread s([&]{ l.stop(); }); std::this_thread::sleep_for(std::chrono::milliseconds(100)); l.start(); s.join(); l.stop(); } return 0; }""",
 'the service is started again by a thread while another one is stopping it', 'the stop request is revoked and stop never returns', src=LOG)
seed('c20-lost-listener', 'C20', [(LS, '	std::lock_guard<std::mutex> guard(m_mtxListeners);\n	std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),\n			std::back_inserter(m_activeListeners));\n	m_pendingListeners.clear();', '	{\n		std::lock_guard<std::mutex> guard(m_mtxListeners);\n		std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),\n				std::back_inserter(m_activeListeners));\n	}\n	std::lock_guard<std::mutex> guard(m_mtxListeners);\n	m_pendingListeners.clear();')],
 LH + CHK + """int main() { for(int k = 0; k < 10; ++k) { LogSystem l; std::atomic<bool> stop{false}; std::thread a([&]{ while(!stop) { l.log("f", 1, LogSystem::INFO, "", "a"); std::this_thread::sleep_for(std::chrono::microseconds(3)); } }); auto w = [&]{ for(int i = 0; i < 1500; ++i) { auto r = std::make_shared<Rec>(); r->level(LogSystem::CRITICAL); l.addListener(r); } }; std::thread b(w), c(w), e(w); b.join(); c.join(); e.join(); stop = true; a.join(); LogSystem::Diags d; l.stop(); l.getDiags(d); CHECK(d.m_activeListeners + d.m_pendingListeners == 4500); } return 0; }""",
 'a listener added between two steps of the adoption of new listeners', 'it is forgotten', src=LOG)
seed('c07-clear-in-two', 'C07', [(PS, '      //TODO: Swap base.\n      std::lock_guard<_Mutex> guard(m_mutex);\n      while(m_curBase != m_base.begin()) {\n         m_curBase->clear();\n         --m_curBase;\n      }', '      //TODO: Swap base.\n      std::unique_lock<_Mutex> guard(m_mutex);\n      while(m_curBase != m_base.begin()) {\n         m_curBase->clear();\n         --m_curBase;\n         // let the others go on.\n         guard.unlock();\n         guard.lock();\n      }')],
 PSH + CHK + """#include <mutex>\nstruct M; static PagedStack<int, std::allocator, M>* target; static bool armed;
struct M { std::mutex m; void lock() { m.lock(); } void unlock() { m.unlock(); if(armed) { armed = false; target->push(99); } } };
int main() { PagedStack<int, std::allocator, M> s(2, 2); target = &s; for(int i = 0; i < 4; ++i) s.push(i); armed = true; s.clear(); CHECK(s.size() == 1); CHECK(s.top() == 99); return 0; }""",
 'an element pushed by another thread while a stack of several pages is being cleared', 'the clear takes effect in several steps: the element pushed between them is discarded with the older ones')
seed('c09-pop-first', 'C09', [(PS, '      value = m_curBase->back();\n      internal_pop_one();\n      internal_pop(std::forward<_Args>(__args)...);', '      _T top = m_curBase->back();\n      internal_pop_one();\n      value = top;\n      internal_pop(std::forward<_Args>(__args)...);')],
 PSH + CHK + """#include <stdexcept>\nstatic bool bad; struct E { int v; E(int x = 0): v(x) {} E(const E&) = default; E& operator=(const E& o) { if(bad) throw std::runtime_error("no"); v = o.v; return *this; } };
int main() { PagedStack<E> s(2, 2); for(int i = 0; i < 3; ++i) s.push(E(i)); E e; bad = true; try { s.pop(e); CHECK(false); } catch(std::runtime_error&) {} bad = false; CHECK(s.size() == 3); s.pop(e); CHECK(e.v == 2); CHECK(s.size() == 2); return 0; }""",
 'assigning the popped value fails', 'the element is lost')
seed('c18-spurious', 'C18', [(LS, '		m_cvLogs.wait(msgl, [=](){\n			return (!m_messages.empty()) || m_isTerminated;\n			}\n		);\n', '		if(m_messages.empty() && !m_isTerminated) {\n			m_cvLogs.wait(msgl);\n		}\n')],
 LH + CHK + """#include <pthread.h>\n#include <dlfcn.h>\nstatic std::atomic<int> spurious{0};
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if(spurious++ < 3) { pthread_mutex_unlock(m); std::this_thread::sleep_for(std::chrono::milliseconds(2)); pthread_mutex_lock(m); return 0; } static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait"); return real(c, m); }
int main() { LogSystem l; auto a = std::make_shared<Rec>(); l.addListener(a); std::this_thread::sleep_for(std::chrono::milliseconds(100)); for(int i = 0; i < 20; ++i) l.log("f", i, LogSystem::INFO, "", "a"); CHECK(waitFor(*a, 20)); std::this_thread::sleep_for(std::chrono::milliseconds(50)); CHECK(a->n() == 20); for(int i = 0; i < 20; ++i) CHECK(a->got[i].m_line == i); LogSystem::Diags d; l.getDiags(d); CHECK(d.m_msgReceived == 20); return 0; }""",
 'the delivery thread is woken up spuriously', 'it takes a message that is not there', src=LOG, flags='-O1 -g -D_GLIBCXX_ASSERTIONS')
seed('c11-narrow', 'C11', [(FX, 'unsigned int m_count{0};', 'unsigned char m_count{0};')],
 '#include <falcon/futex.h>\n#include <cstdio>\n' + CHK + '''int main() { falcon::RFutex f; for(int i = 0; i < 257; ++i) f.lock(); f.unlock(); CHECK(f.isLocked()); CHECK(f.isOwner()); for(int i = 0; i < 256; ++i) f.unlock(); CHECK(!f.isLocked()); return 0; }''',
 'a thread that holds the recursive lock more than 255 times', 'the count wraps and the lock is freed while it is still held', src=['src/engine/futex.cpp'])
seed('c16-width', 'C16', [('src/engine/compiler.cpp', 'input >> value;', 'input.width(256);\n\tinput >> value;')],
 '#include <falcon/engine/compiler.h>\n#include <sstream>\n#include <cstdio>\n' + CHK + '''int main() { falcon::Compiler c; std::string t(300, 'x'); std::istringstream a(t + " two"); CHECK(c.compile(a).toString() == t); CHECK(c.compile(a).toString() == "two"); return 0; }''', 'a token longer than 256 characters', 'it is cut in two', src=['src/engine/code.cpp', 'src/engine/compiler.cpp'])
seed('c24-long-path', 'C24', [('src/engine/logstream.cpp', 'size_t fpos = msg.m_file.rfind(FALCON_DIR_SEP_CHR);', 'size_t fpos = msg.m_file.rfind(FALCON_DIR_SEP_CHR, 255);')],
 LH + CHK + '''int main() { std::ostringstream o; LogStreamListener l; l.writeOn(&o); std::string d; for(int i = 0; i < 60; ++i) d += "/directory"; l.onMessage(LogSystem::Message(d + "/b.c", 7, LogSystem::INFO, "", "text")); std::string s = o.str(); CHECK(s.size() > 20 && s.substr(19) == " [INFO] b.c:7 text\\n"); return 0; }''', 'a source file whose path is longer than 255 characters', 'more than its base name is written', src=LOG)
seed('c30-suite-failures', 'C30', [(UT, '"failures=\\"" << component.failures << "\\" "', '"failures=\\"" << p->failedCount << "\\" "')],
 FP + CHK + '''int main() { T a, b; a.b = []{ throw std::runtime_error("boom"); }; std::string f = "report.xml"; { UnitTest* u = new UnitTest; u->addTestCase("One", "a", &a); u->addTestCase("Two", "b", &b); std::string p = "prog", q = "-q", x = "-x"; char* v[] = {&p[0], &q[0], &x[0], &f[0], nullptr}; CHECK(u->main(4, v) != 0); }
 std::ifstream in(f); std::stringstream s; s << in.rdbuf(); std::string r = s.str(); auto i = r.find("name=\\"Two\\""); CHECK(i != std::string::npos); CHECK(r.find("failures=\\"0\\"", i) != std::string::npos); return 0; }''', 'a failure in a run of several components', 'the report attributes the failures of the run to each component', src=FUT)
seed('c28-exit-wrap', 'C28', [(UT, "            p->status = -1;\n            p->failedCount++;\n            component.failures++;", "            p->status = ++p->failedCount;\n            component.failures++;")],
 FP + CHK + '''#include <unistd.h>\n#include <sys/wait.h>
int main() { pid_t c = fork(); if(c == 0) { std::vector<T> t(256); std::vector<std::string> n; UnitTest* u = new UnitTest; u->setVerbosity(UnitTest::SILENT); for(int i = 0; i < 256; ++i) { t[i].b = []{ throw std::runtime_error("bad"); }; u->addTestCase("One", ("c" + std::to_string(i)).c_str(), &t[i]); } std::string p = "prog"; char* v[] = {&p[0], nullptr}; _exit(u->main(1, v)); }
 int s = 0; waitpid(c, &s, 0); CHECK(WIFEXITED(s)); CHECK(WEXITSTATUS(s) != 0); return 0; }''', 'exactly 256 failing cases', 'the exit status of the process is zero', src=FUT)
seed('c22-nul', 'C22', [(LGH, 'log(m_msgFile, m_msgLine, m_msgLevel, m_category, m_composer.str());', 'log(m_msgFile, m_msgLine, m_msgLevel, m_category, m_composer.str().c_str());')],
 LH + CHK + '''int main() { auto r = std::make_shared<Rec>(); LOGGER.addListener(r); LOGGER.start(); LOG_INFO << std::string("a\\0b", 3) << "c"; CHECK(waitFor(*r, 1)); std::lock_guard<std::mutex> g(r->m); CHECK(r->got[0].m_message == std::string("a\\0bc", 4)); return 0; }''', 'a zero byte among what is streamed', 'the message ends there', src=LOG)
seed('c25-weak', 'C25', [('src/include/falcon/logproxy.h', '    \tm_other->onMessage(msg);', '    \tif(auto other = m_other.lock()) {\n    \t\tother->onMessage(msg);\n    \t}'), ('src/include/falcon/logproxy.h', '    LogSystem::PListener m_other;', '    std::weak_ptr<LogSystem::Listener> m_other;')],
 LH + CHK + '''static int got = 0; struct Count: LogSystem::Listener { void onMessage(const LogSystem::Message&) override { ++got; } }; int main() { LogProxyListener p(std::make_shared<Count>()); p.onMessage(LogSystem::Message("f", 1, LogSystem::INFO, "", "a")); CHECK(got == 1); return 0; }''', 'a wrapped listener that only the proxy refers to', 'it is destroyed, and the messages are lost', src=LOG)
seed('c17-icase', 'C17', [(LSH, 'm_catRegex = std::regex(regex_cat);', 'm_catRegex = std::regex(regex_cat, std::regex::icase);')],
 LH + CHK + '''int main() { auto r = std::make_shared<Rec>(); r->category("net.*"); CHECK(r->checkCategory("network")); CHECK(!r->checkCategory("NETWORK")); return 0; }''', 'a category that differs from what the filter says only in its case', 'it matches', src=LOG)
seed('c18-urgent', 'C18', [(LS, '	m_messages.push_back(msg);\n	if(m_messages.size() > m_maxMsgQueueSize) {', '	if(msg->m_level == LEVEL::CRITICAL) {\n		m_messages.push_front(msg);\n	}\n	else {\n		m_messages.push_back(msg);\n	}\n	if(m_messages.size() > m_maxMsgQueueSize) {')],
 LH + CHK + '''int main() { LogSystem l(false); auto r = std::make_shared<Rec>(); l.addListener(r); l.log("f", 1, LogSystem::INFO, "", "a"); l.log("f", 2, LogSystem::INFO, "", "b"); l.log("f", 3, LogSystem::CRITICAL, "", "c"); l.start(); CHECK(waitFor(*r, 3)); std::lock_guard<std::mutex> g(r->m); CHECK(r->got[0].m_message == "a" && r->got[2].m_message == "c"); return 0; }''', 'a critical message logged while others are pending', 'it overtakes them', src=LOG)
seed('c03-jump', 'C03', [(PS, '''      const reverse_iterator_base& operator+=(size_t size) noexcept {
         for(size_t i=0; i < size; ++i) {++ *this;}
         return *this;''', '''      const reverse_iterator_base& operator+=(size_t size) noexcept {
         while(size > static_cast<size_t>(m_iBase->end() - m_iData) && m_iBase != m_iBaseEnd) {
            size -= m_iBase->end() - m_iData;
            ++m_iBase;
            m_iData = m_iBase->begin();
         }
         m_iData += size;
         return *this;''')],
 PSH + CHK + """int main() { PagedStack<int> s(3, 2); for(int i = 0; i < 7; ++i) s.push(i); auto i = s.rbegin(); i += 3; auto j = s.rbegin(); ++j; ++j; ++j; CHECK(i == j); return 0; }""",
 'a step that ends exactly at the end of a page', 'the iterator is left past the last element of a page instead of on the first of the next')
seed('c26-ge-nan', 'C26', [(FH, 'FALCON_TEST_CHECK_LOGIC(_EXPECTED_,>=,_ACTUAL_)', 'EXPECT_FALSE((_EXPECTED_) < (_ACTUAL_))')],
 FP + CHK + """struct A: TestCase { double x; void test() override { EXPECT_GE(1.0, x); } };
int main() { A a; a.x = 0.5; a.beginTest(true); a.run(); a.endTest(true); CHECK(a.status() == TestCase::SUCCESS); a.x = 1.5; a.beginTest(true); a.run(); a.endTest(true); CHECK(a.status() == TestCase::FAIL); a.x = 0.0; a.x /= a.x; a.beginTest(true); a.run(); a.endTest(true); CHECK(a.status() == TestCase::FAIL); return 0; }""", 'comparing with a value that is not a number', 'not being less passes as being greater or equal', src=FUT)
seed('c29-dash', 'C29', [(UT, 'else if (opt == "-n" && ++i < argc) {', 'else if (opt == "-n" && ++i < argc && argv[i][0] != \'-\') {')],
 FP + CHK + """int main() { auto run = [](const char* w) { bool ran = false; T a; a.b = [&]{ ran = true; }; UnitTest* u = new UnitTest; u->setVerbosity(UnitTest::SILENT); u->addTestCase("One", "a", &a); std::string p = "prog", x = w, n = "-n"; char* v[] = {&p[0], &n[0], &x[0], nullptr}; std::ostringstream o; auto old = std::cout.rdbuf(o.rdbuf()), olde = std::cerr.rdbuf(o.rdbuf()); int r = u->main(3, v); std::cout.rdbuf(old); std::cerr.rdbuf(olde); return ran && r == 0; };
 CHECK(run("name")); CHECK(run("")); CHECK(run("-name")); return 0; }""", 'a name of the unit test that begins with a dash', 'it is refused', src=FUT)
seed('c31-round', 'C31', [('src/fut/marktime-unix.c++', '(tv.tv_usec / 1000)', '((tv.tv_usec + 500) / 1000)')],
 '#include <falcon/types.h>\n#include <falcon/fut/timelapse.h>\n#include <sys/time.h>\n#include <cstdio>\n' + CHK + """static long us = 0; extern "C" int gettimeofday(struct timeval* t, void*) noexcept { t->tv_sec = us / 1000000; t->tv_usec = us % 1000000; return 0; }
int main() { falcon::testing::TimeLapse t; us = 5000000; t.markBegin(); us = 5001700; t.markEnd(); CHECK(t.elapsed() == 1); CHECK(t.end() == 5001); return 0; }""", 'a time past the middle of a millisecond', 'the mark is a millisecond late', src=FUT)
seed('c34-const', 'C34', [('src/include/falcon/singleton.h', 'const T& operator*() const {return *(const_cast<Singleton<T>*>(this)->get());}', 'const T& operator*() const {\n\t\tstatic const T& inst = *(new T(*const_cast<Singleton<T>*>(this)->get()));\n\t\treturn inst;\n\t}')],
 '#include <falcon/singleton.h>\n#include <cstdio>\n' + CHK + """struct X { int v = 1; }; int main() { falcon::Singleton<X> s; const falcon::Singleton<X>& c = s; CHECK((*c).v == 1); s.get()->v = 2; CHECK(c->v == 2); CHECK((*c).v == 2); CHECK(&*c == s.get()); return 0; }""", 'reading through the constant dereference operator', 'a copy of the instance is given')
seed('c33-or', 'C33', [(AG, 'return __sync_fetch_and_or(&target, value);', 'atomic_int_base previous = atomicFetch(target);\n   if((previous & value) != value) {\n      atomicSet(target, previous | value);\n   }\n   return previous;')],
 """#include <falcon/types.h>\n#include <falcon/atomic_gcc.h>\n#include <thread>\n#include <cstdio>\nint main() { using namespace falcon; atomic_int v = 1; if(atomicOr(v, 2) != 1 || v != 3) return 1; for(int r = 0; r < 50; ++r) { atomic_int x = 0; volatile bool wrong = false; auto w = [&](int bit) { for(int i = 0; i < 20000; ++i) { atomicOr(x, bit); if((atomicFetch(x) & bit) != bit) wrong = true; atomicAnd(x, ~bit); } }; std::thread a(w, 1), b(w, 2); a.join(); b.join(); if(wrong) { std::puts("a bit was lost"); return 1; } } return 0; }""", 'another thread sets another bit meanwhile', 'the bit set by one of them is lost')
seed('c24-backslash', 'C24', [('src/engine/logstream.cpp', 'msg.m_file.rfind(FALCON_DIR_SEP_CHR);', 'msg.m_file.find_last_of("\\\\/");')],
 LH + CHK + """int main() { auto run = [](const char* f) { std::ostringstream o; LogStreamListener l; l.writeOn(&o); l.onMessage(LogSystem::Message(f, 7, LogSystem::INFO, "", "text")); return o.str().substr(o.str().find(']') + 2); }; CHECK(run("/a/b.c") == "b.c:7 text\\n"); CHECK(run("/a/b\\\\c.c") == "b\\\\c.c:7 text\\n"); return 0; }""", 'a file name with a backslash', 'only what follows it is written', src=LOG)
seed('c30-time', 'C30', [(UT, '"time=\\"" << tcasep->elapsedTime() / 1000.0 <<', '"time=\\"" << tcasep->elapsedTime() / 1000 <<')],
 FP + "#include <falcon/fut/marktime.h>\n" + CHK + """int main() { T a; a.b = []{ falcon::testing::waitTime(1300); }; std::string f = "report.xml"; { UnitTest* u = new UnitTest; u->addTestCase("One", "a", &a); std::string p = "prog", q = "-q", x = "-x"; char* v[] = {&p[0], &q[0], &x[0], &f[0], nullptr}; CHECK(u->main(4, v) == 0); }
std::ifstream in(f); std::stringstream s; s << in.rdbuf(); std::string t = s.str(); size_t at = t.find("<testcase"); CHECK(at != std::string::npos); at = t.find("time=\\"", at); CHECK(at != std::string::npos); double e = std::stod(t.substr(at + 6)); CHECK(e >= 1.29); return 0; }""", 'a case that takes a fraction of a second', 'the fraction is dropped in the report', src=FUT)
seed('c01-moved-argument', 'C01', [(PS, '''   void internal_push(const _T& data) {
       advance();
       m_curBase->push_back(data);'''.replace('\n    ', '\n   ').replace('    void', '   void', 1), '''   template<typename _U>
   void internal_push(_U&& data) {
      advance();
      m_curBase->push_back(std::move(data));'''), (PS, '''   template<typename... _Args>
   void internal_push(const _T& data, _Args&&... __args) {
      advance();
      m_curBase->push_back(data);''', '''   template<typename _U, typename... _Args>
   void internal_push(_U&& data, _Args&&... __args) {
      advance();
      m_curBase->push_back(std::move(data));''')],
 PSH + CHK + '''int main() { PagedStack<std::string> s(2, 2); std::string a("a text that is longer than a small one"), b("another text that is longer than that"), c(b); s.push(a, b, c); CHECK(s.size() == 3); CHECK(s.top() == "another text that is longer than that"); CHECK(a.size() && b.size() && c.size()); s.push(a, b); CHECK(s.top() == b); return 0; }''',
 'several values pushed at once, of a type that is emptied when moved from, and used again', 'the values are moved out of the variables of the caller')
seed('c36-queue-locked', 'C36', [(LS, '''		m_messages.pop_front();
		msgl.unlock();

		// Do we need to add new listeners?
		processNewListeners();

		// Now send the message
		sendMessageToListeners(msg);
''', '''		m_messages.pop_front();

		// Do we need to add new listeners?
		processNewListeners();

		// Now send the message
		sendMessageToListeners(msg);
		msgl.unlock();
''')],
 LH + CHK + '''#include <unistd.h>\nstruct Echo: Rec { LogSystem* l; void onMessage(const LogSystem::Message& m) override { if(m.m_line == 1) l->log("f", 2, LogSystem::INFO, "", "echo"); Rec::onMessage(m); } };
int main() { alarm(20); LogSystem l; auto a = std::make_shared<Echo>(); a->l = &l; l.addListener(a); l.log("f", 1, LogSystem::INFO, "", "a"); CHECK(waitFor(*a, 2)); CHECK(a->n() == 2); return 0; }''', 'a listener that logs a message while it handles another', 'the delivery thread deadlocks', src=LOG)
seed('c25-level', 'C25', [('src/include/falcon/logproxy.h', '    \tm_other->onMessage(msg);', '    \tif(m_other->level() >= msg.m_level) {\n    \t\tm_other->onMessage(msg);\n    \t}')],
 LH + CHK + '''int main() { auto r = std::make_shared<Rec>(); r->level(LogSystem::ERROR); LogProxyListener p(r); p.onMessage(LogSystem::Message("f", 1, LogSystem::INFO, "", "a")); CHECK(r->n() == 1); return 0; }''', 'a wrapped listener with a level of its own', 'the messages above that level are lost', src=LOG)
seed('c21-received', 'C21', [(LS, '	m_msgReceived++;\n	for(auto listener: m_activeListeners) {\n', '	for(auto listener: m_activeListeners) {\n		if(listener == m_activeListeners.front()) {\n			m_msgReceived++;\n		}\n')],
 LH + CHK + '''int main() { LogSystem l; l.log("f", 1, LogSystem::INFO, "", "a"); l.log("f", 2, LogSystem::INFO, "", "b"); LogSystem::Diags d; for(int i = 0; i < 1000; ++i) { l.getDiags(d); if(d.m_msgReceived == 2) return 0; std::this_thread::sleep_for(std::chrono::milliseconds(2)); } return 1; }''', 'messages logged before any listener is active', 'they are not counted as received', src=LOG)
seed('c30-second-run', 'C30', [(UT, '   p->status = 0;\n   p->failedCount = 0;\n', '   p->status = 0;\n'), (UT, '      status(0),\n      screenWidth(50),', '      status(0),\n      failedCount(0),\n      screenWidth(50),')],
 FP + CHK + '''int main() { bool ok = false; T a; a.b = [&ok]{ if(!ok) throw std::runtime_error("no"); }; std::string f = "report.xml"; { UnitTest u; u.addTestCase("One", "a", &a); std::string q = "-q", x = "-x"; char* v[] = {&q[0], &x[0], &f[0], nullptr}; u.detectTestName("prog"); CHECK(u.parseParams(3, v) == 0); CHECK(u.performUnitTests() != 0); ok = true; CHECK(u.performUnitTests() == 0); }
std::ifstream in(f); std::stringstream s; s << in.rdbuf(); std::string t = s.str(); CHECK(t.find("<testsuites") != std::string::npos); CHECK(t.find("failures=\\"0\\"") != std::string::npos); CHECK(t.find("failures=\\"1\\"") == std::string::npos); return 0; }''', 'a suite run twice, with failures in the first run', 'the report of the second run counts the failures of the first one too', src=FUT)
seed('c33-cas-same', 'C33', [(AG, 'return __sync_bool_compare_and_swap( &target, compareTo, newVal );', 'return __sync_val_compare_and_swap( &target, compareTo, newVal ) == compareTo || target == newVal;')],
 '#include <falcon/types.h>\n#include <falcon/atomic_gcc.h>\n#include <cstdio>\n' + CHK + 'int main() { falcon::atomic_int v = 1; CHECK(!falcon::atomicCAS(v, 0, 1)); CHECK(v == 1); CHECK(falcon::atomicCAS(v, 1, 2)); CHECK(v == 2); return 0; }', 'a compare-and-swap that loses to another one storing the same value', 'it is reported as successful')
seed('c34-per-thread', 'C34', [('src/include/falcon/singleton.h', '\t\tstatic T inst;\n', '\t\tstatic thread_local T inst;\n')],
 '#include <falcon/singleton.h>\n#include <thread>\n#include <cstdio>\n' + CHK + 'struct X { int n = 0; }; int main() { falcon::Singleton<X> s; X* p = s.get(); X* q = nullptr; std::thread a([&]{ q = s.get(); }); a.join(); CHECK(p == q); return 0; }', 'the instance used by two threads', 'each has its own')
seed('c31-now', 'C31', [('src/include/falcon/fut/timelapse.h', 'return m_begin > now\n', 'return m_begin >= now\n')],
 '#include <falcon/fut/timelapse.h>\n#include <cstdio>\n' + CHK + 'int main() { falcon::testing::TimeLapse t; for(int i = 0; i < 1000; ++i) { t.markBegin(); long n = t.elapsedNow(); CHECK(n >= 0 && n < 100000); } return 0; }', 'the time elapsed so far asked in the millisecond of the beginning', 'a whole day is reported', src=FUT)
seed('c11-relaxed-unlock', 'C11', [(FX, 'm_owner.store(0, std::memory_order_seq_cst);', 'm_owner.store(0, std::memory_order_relaxed);')],
 """#include <falcon/futex.h>\n#include <thread>\nint data; int main() { falcon::RFutex f; auto w = [&]{ for(int i = 0; i < 300; ++i) { f.lock(); ++data; f.unlock(); } }; std::thread a(w), b(w); a.join(); b.join(); return data == 600 ? 0 : 1; }""", 'two threads using the lock on a machine (or a checker) that honours the weak memory order', 'what was written under the lock is not published', flags=TSF, src=['src/engine/futex.cpp'])
seed('c28-init', 'C28', [(UT, '   for(auto testIter: p->tests ) {\n      testIter->init();', '   for(auto testIter: p->testsToPerofm ) {\n      testIter->init();')],
 FP + CHK + '''struct I: T { int inits = 0; void init() override { ++inits; T::init(); } }; int main() { I a, b; UnitTest u; u.setVerbosity(UnitTest::SILENT); u.addTestCase("One", "a", &a); u.addTestCase("One", "b", &b); CHECK(u.performUnitTests() == 0); CHECK(a.inits == 1 && b.inits == 1); return 0; }''', 'cases that prepare something in init()', 'they are not initialised before the first run', src=FUT)
seed('c17-nul', 'C17', [(LS, 'return std::regex_match(cat, m_catRegex);', 'return std::regex_match(cat.c_str(), m_catRegex);')],
 LH + CHK + '''int main() { auto r = std::make_shared<Rec>(); r->category("net"); CHECK(r->checkCategory("net")); CHECK(!r->checkCategory(std::string("net\\0work", 8))); return 0; }''', 'a category with a NUL character', 'only what comes before is compared', src=LOG)
seed('c24-nul-category', 'C24', [('src/engine/logstream.cpp', 'if(! msg.m_category.empty()) {', 'if(*msg.m_category.c_str()) {')],
 LH + CHK + """int main() { std::ostringstream o; LogStreamListener l; l.writeOn(&o); l.onMessage(LogSystem::Message("f", 7, LogSystem::INFO, std::string("\\0x", 2), "text")); CHECK(o.str().find(std::string("(\\0x) ", 5)) != std::string::npos); return 0; }""", 'a category that begins with a NUL character', 'the category is not written', src=LOG)
seed('c26-any-throw', 'C26', [(FX.replace('futex.h', 'fut/fut.h'), '''"No throw when any throw was expected", "" ); \\
         return; \\
     } catch(...) {}''', '''"No throw when any throw was expected", "" ); \\
         return; \\
     } catch(const std::exception&) {}''')],
 FP + CHK + '''int main() { T a; int after = 0; struct E: T { int* n; void test() override { EXPECT_ANY_THROW(throw 7); ++*n; } } e; e.n = &after; UnitTest u; u.setVerbosity(UnitTest::SILENT); u.addTestCase("One", "e", &e); CHECK(u.performUnitTests() == 0); CHECK(after == 1); return 0; }''', 'an expression that throws something that is not a standard exception', 'the check fails with an error', src=FUT)
seed('c29-missing', 'C29', [(UT, '''      else if (opt == "-i" && ++i < argc) {
         p->unitTestId = argv[i];
         continue;''', '''      else if (opt == "-i") {
         if(++i < argc) {
            p->unitTestId = argv[i];
         }
         continue;''')],
 FP + CHK + '''int main() { UnitTest u; std::string i = "-i"; char* v[] = {&i[0], nullptr}; std::ostringstream o; auto a = std::cout.rdbuf(o.rdbuf()); auto b = std::cerr.rdbuf(o.rdbuf()); int r = u.parseParams(1, v); std::cout.rdbuf(a); std::cerr.rdbuf(b); CHECK(r != 0); return 0; }''', 'the option -i as the last word', 'it is accepted without its argument', src=FUT)
seed('c30-append', 'C30', [(UT, 'std::ofstream fout(p->xmlReport);', 'std::ofstream fout(p->xmlReport, std::ios::app);')],
 FP + CHK + '''int main() { T a; a.b = []{}; std::string f = "report.xml"; std::remove(f.c_str()); { UnitTest u; u.addTestCase("One", "a", &a); std::string q = "-q", x = "-x"; char* v[] = {&q[0], &x[0], &f[0], nullptr}; u.detectTestName("prog"); CHECK(u.parseParams(3, v) == 0); CHECK(u.performUnitTests() == 0); CHECK(u.performUnitTests() == 0); }
std::ifstream in(f); std::stringstream s; s << in.rdbuf(); std::string t = s.str(); CHECK(t.find("<?xml") == 0); CHECK(t.find("<?xml", 1) == std::string::npos); return 0; }''', 'a report written where there is one already', 'the new one follows the old one, and the file is not well formed', src=FUT)
seed('c32-silent', 'C32', [(UT, 'p->verbosity >= REPORT_STDERR || (p->verbosity > SILENT && !hasPassed(tc))', 'p->verbosity >= REPORT_STDERR || !hasPassed(tc)')],
 FP + CHK + '''int main() { T a; a.b = []{ std::cerr << "seen"; throw 1; }; UnitTest u; u.setVerbosity(UnitTest::SILENT); u.addTestCase("One", "a", &a); std::ostringstream o; auto old = std::cout.rdbuf(o.rdbuf()); u.performUnitTests(); std::cout.rdbuf(old); CHECK(o.str().empty()); return 0; }''', 'a failing case that writes on the error stream, in a silent run', 'its output is shown', src=FUT)
seed('c23-widest', 'C23', [(LG, '\t\tlevel(l);\n', '\t\tlevel(LLTRACE);\n')],
 LH + CHK + '''int main() { auto r = std::make_shared<Rec>(); std::ostringstream o; LOGGER.defaultListener()->writeOn(&o); LOGGER.addListener(r); LOGGER.start(); LOGGER.level(LLERR); LOGGER.categoryFilter("net", LLINFO); CHECK(LOGGER.level() == LLINFO); LOG_DBG << "noise"; LOG_INFO << "plain"; received(LOGGER, 1); CHECK(r->n() == 1); LOGGER.stop(); return 0; }''', 'a category filter with a level between the general one and the finest', 'the general level is raised further', src=LOG)
seed('c12-char', 'C12', [('src/include/falcon/engine/itemdata.h', '''std::is_same_v<T, char>) {
            uint64Value = static_cast<uint64>(value);''', '''std::is_same_v<T, char>) {
            uint64Value = static_cast<byte>(value);''')],
 ITH + CHK + 'int main() { Item i((char)-1); CHECK(i.toInt() == -1); CHECK(i.get<int64>() == -1); CHECK(i.toString() == "-1"); return 0; }', 'a negative character', 'it becomes a positive number', src=HF)
seed('c13-nul', 'C13', [('src/include/falcon/engine/item.h', '''std::is_same_v<T, std::string>) {
            data.ptrValue = new String(value);''', '''std::is_same_v<T, std::string>) {
            data.ptrValue = new String(value.c_str());''')],
 ITH + CHK + 'int main() { std::string s("a\\0b", 3); Item i(s); CHECK(i.get<String>() == s); return 0; }', 'a string with a NUL character', 'only what comes before is kept', src=HF)
seed('c07-peek-unlocked', 'C07', [(PS, '''      assert(sizeof...(__args) <= size());
      std::lock_guard<_Mutex> guard(m_mutex);
      distribute(internal_from_top(sizeof...(__args)), std::forward<_Args>(__args)...);
   }''', '''      assert(sizeof...(__args) <= size());
      distribute(from_top(sizeof...(__args)), std::forward<_Args>(__args)...);
   }''')],
 PSH + '''#include <thread>\n#include <mutex>\nvolatile int sink; int main() { PagedStack<int, std::allocator, std::mutex> s(2, 2); s.push(1, 2); std::thread a([&]{ for(int i = 0; i < 30000; ++i) { s.top(i); } }); std::thread b([&]{ int x, y; for(int i = 0; i < 30000; ++i) { s.peek_reverse(x, y); sink = x + y; } }); a.join(); b.join(); return 0; }''', 'a multiple read from the bottom while another thread replaces the top', 'the values are read out of the lock', flags='-O1 -g -fsanitize=thread -DNDEBUG')
seed('c21-pending-unlocked', 'C21', [(LS, '''	{
		std::lock_guard<std::mutex> guard(m_mtxListeners);
		diags.m_pendingListeners = m_pendingListeners.size();
''', '''	diags.m_pendingListeners = m_pendingListeners.size();
	{
		std::lock_guard<std::mutex> guard(m_mtxListeners);
''')],
 LH + '''#include <thread>\nint main() { LogSystem s; std::thread a([&]{ for(int i = 0; i < 200; ++i) s.addListener(std::make_shared<Rec>()); }); LogSystem::Diags d; for(int i = 0; i < 200; ++i) s.getDiags(d); a.join(); return 0; }''', 'diagnostics taken while a listener is added', 'the number of pending listeners is read out of the lock', flags=TSF, src=LOG)
seed('c04-reverse-page', 'C04', [(PS, 'distribute(internal_from_top(sizeof...(__args)), std::forward<_Args>(__args)...);', 'if(m_curBase->size() == sizeof...(__args) - 1) {\n         // all what is in this page, and the element below it.\n         distribute(const_reverse_iterator(m_curBase, m_curBase->begin(), m_curBase), std::forward<_Args>(__args)...);\n         return;\n      }\n      distribute(internal_from_top(sizeof...(__args)), std::forward<_Args>(__args)...);')],
 PSH + CHK + """int main() { PagedStack<int> s(4, 2); for(int i = 0; i < 6; ++i) s.push(i); int a = -1, b = -1, c = -1; s.peek_reverse(a); CHECK(a == 5); s.peek_reverse(a, b); CHECK(a == 4 && b == 5); s.peek_reverse(a, b, c); CHECK(a == 3 && b == 4 && c == 5); return 0; }""",
 'as many elements read as the topmost page has, and one more', 'they are read from the topmost page only')
seed('c15-move-nul', 'C15', [('src/engine/code.cpp', 'm_source(std::move(other.m_source)),', 'm_source(other.m_data ? other.m_data : ""),')],
 '#include <falcon/engine/code.h>\n#include <cstdio>\n#include <string>\n#include <utility>\n' + CHK + """int main() { std::string t("a\\0b", 3); falcon::Code a(t, 1); CHECK(a.toString() == t); falcon::Code b(std::move(a)); CHECK(b.toString() == t); return 0; }""", 'a code with a zero byte, moved', 'its text ends at the zero byte', src=['src/engine/code.cpp'])
seed('c16-separator', 'C16', [('src/engine/compiler.cpp', 'input >> value;', 'input >> value;\n\tif(input.peek() == \'\\n\') {\n\t\tinput.get();\n\t}')],
 '#include <falcon/engine/compiler.h>\n#include <sstream>\n#include <cstdio>\n' + CHK + """int main() { falcon::Compiler c; std::istringstream a("one two\\nthree"); CHECK(c.compile(a).toString() == "one"); CHECK(a.get() == ' '); CHECK(c.compile(a).toString() == "two"); CHECK(a.get() == '\\n'); CHECK(c.compile(a).toString() == "three"); return 0; }""", 'a token followed by the end of its line', 'the end of the line is taken with the token', src=['src/engine/code.cpp', 'src/engine/compiler.cpp'])
seed('c27-nothing-to-add', 'C27', [(TC, '   p->failDesc = expected;\n   if(*actual) {', '   p->failDesc = expected;\n   if(!*expected && !*actual) {\n      // nothing to say about it\n      return;\n   }\n   if(*actual) {')],
 FP + CHK + """int main() { T t; t.b = [&]{ t.checkFail("f", 1, "", ""); }; t.beginTest(true); t.run(); t.endTest(true); CHECK(t.status() == TestCase::FAIL); T u; u.b = [&]{ u.checkFail("f", 1, "a", ""); }; u.beginTest(true); u.run(); u.endTest(true); CHECK(u.status() == TestCase::FAIL); return 0; }""", 'a failure without a description', 'the case is successful', src=FUT)
seed('c27-error-no-text', 'C27', [(TC, '      if(p->status == NONE) {', '      if(p->status == NONE || (p->failDesc.empty() && p->failFile.empty())) {')],
 FP + CHK + """int main() { T t; t.b = [&]{ t.fail("", 1, ""); }; t.beginTest(true); t.run(); t.endTest(true); CHECK(t.status() == TestCase::FAIL); return 0; }""", 'a failure with neither a description nor a file', 'the case is successful', src=FUT)
seed('c18-empty', 'C18', [(LS, '	if (level > m_level) {\n		return;', '	if (level > m_level || message.empty()) {\n		return;')],
 LH + CHK + """int main() { LogSystem s; auto r = std::make_shared<Rec>(); s.addListener(r); s.log("f", 1, LogSystem::INFO, "", "one"); s.log("f", 2, LogSystem::INFO, "", ""); s.log("f", 3, LogSystem::INFO, "", "three"); waitFor(*r, 3); s.stop(); CHECK(r->got.size() == 3); CHECK(r->got[1].m_line == 2); return 0; }""", 'a message without text', 'it is never delivered', src=LOG)
seed('c25-empty', 'C25', [('src/include/falcon/logproxy.h', '    	m_other->onMessage(msg);', '    	if(!msg.m_message.empty()) {\n    		m_other->onMessage(msg);\n    	}')],
 LH + '#include <falcon/logproxy.h>\n' + CHK + """int main() { auto r = std::make_shared<Rec>(); LogProxyListener p(r); p.onMessage(LogSystem::Message("f", 1, LogSystem::INFO, "", "text")); p.onMessage(LogSystem::Message("f", 2, LogSystem::INFO, "", "")); CHECK(r->got.size() == 2); return 0; }""", 'a message without text', 'the proxy keeps it', src=LOG)
seed('c28-no-reason', 'C28', [(UT, '         if (!hasPassed(tcase))\n         {\n            p->status', '         if (!hasPassed(tcase) && (tcase->failDesc()[0] || tcase->capturedErr()[0]))\n         {\n            p->status')],
 FP + CHK + """int main() { auto run = [](const char* d) { T a; a.b = [&]{ a.checkFail("f", 1, d, ""); }; UnitTest u; u.setVerbosity(UnitTest::SILENT); u.addTestCase("One", "a", &a); return u.performUnitTests(); }; CHECK(run("reason") != 0); CHECK(run("") != 0); return 0; }""", 'a case that fails without giving a reason', 'the run passes', src=FUT)
seed('c30-no-reason', 'C30', [(UT, '         if(!hasPassed(tcasep)) {\n            fout', '         if(!hasPassed(tcasep) && (tcasep->failDesc()[0] || tcasep->capturedErr()[0])) {\n            fout')],
 FP + CHK + """int main() { T a; a.b = []{ throw std::runtime_error(""); }; std::string f = "report.xml"; { UnitTest* u = new UnitTest; u->addTestCase("One", "a", &a); std::string p = "prog", q = "-q", x = "-x"; char* v[] = {&p[0], &q[0], &x[0], &f[0], nullptr}; CHECK(u->main(4, v) != 0); }
 std::ifstream in(f); std::stringstream s; s << in.rdbuf(); CHECK(s.str().find("<failure") != std::string::npos); return 0; }""", 'a case that ends with an exception without a text', 'its failure is counted but not listed', src=FUT)
seed('c32-no-reason', 'C32', [(UT, '   if(p->verbosity > SILENT && tc->status() == TestCase::ERROR) {', '   if(p->verbosity > SILENT && tc->status() == TestCase::ERROR && tc->failDesc()[0]) {')],
 FP + CHK + """int main() { auto run = [](const char* d) { T a; a.b = [&]{ throw std::runtime_error(d); }; UnitTest u; u.setVerbosity(UnitTest::REPORT_FAILURE); u.addTestCase("One", "a", &a); std::ostringstream o; auto old = std::cout.rdbuf(o.rdbuf()); u.performUnitTests(); std::cout.rdbuf(old); return o.str().find("Uncaught error") != std::string::npos; }; CHECK(run("text")); CHECK(run("")); return 0; }""", 'an exception without a text', 'it is not reported', src=FUT)
seed('c29-empty-name', 'C29', [(UT, '         std::string testName = argv[i];\n', '         std::string testName = argv[i];\n         if(testName.empty()) {\n            continue;\n         }\n')],
 FP + CHK + """int main() { auto run = [](const char* n) { bool ran = false; T a; a.b = [&]{ ran = true; }; UnitTest* u = new UnitTest; u->setVerbosity(UnitTest::SILENT); u->addTestCase("One", "a", &a); std::string p = "prog", t = "-t", x = n; char* v[] = {&p[0], &t[0], &x[0], nullptr}; std::ostringstream o; auto old = std::cout.rdbuf(o.rdbuf()), olde = std::cerr.rdbuf(o.rdbuf()); int r = u->main(3, v); std::cout.rdbuf(old); std::cerr.rdbuf(olde); return r != 0 && !ran; };
 CHECK(!run("One::a")); CHECK(run("One::b")); CHECK(run("")); return 0; }""", 'an empty name of the case to run', 'all the cases are run', src=FUT)
seed('c23-match-all', 'C23', [(LG, 'void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {\n', 'void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {\n	if(category.empty()) {\n		clearFilter();\n		return;\n	}\n')],
 LH + '#include <falcon/logger.h>\n' + CHK + """int main() { auto run = [](const char* f) { std::ostringstream o; { Logger l; l.defaultListener()->writeOn(&o); auto r = std::make_shared<Rec>(); l.addListener(r); l.level(LogSystem::ERROR); l.categoryFilter(f, LogSystem::DEBUG); l.log("f", 1, LogSystem::DEBUG, "cat", "the text"); l.log("f", 2, LogSystem::CRITICAL, "", "end"); l.start(); for(int i = 0; i < 200; ++i) { { std::lock_guard<std::mutex> g(r->m); if(r->got.size() && r->got.back().m_message == "end") break; } std::this_thread::sleep_for(std::chrono::milliseconds(10)); } l.stop(); } return o.str().find("the text") != std::string::npos; };
 CHECK(run("cat")); CHECK(!run("other")); CHECK(run("")); return 0; }""", 'the filter that matches any category', 'it only removes the filter', src=LOG)
seed('c21-late-level', 'C21', [(LS, '	m_msgReceived++;', '	if(msg->m_level <= m_level) {\n		m_msgReceived++;\n	}')],
 LH + CHK + """int main() { LogSystem s(false); auto r = std::make_shared<Rec>(); s.addListener(r); s.log("f", 1, LogSystem::INFO, "", "one"); s.log("f", 2, LogSystem::INFO, "", "two"); s.level(LogSystem::ERROR); s.start(); CHECK(waitFor(*r, 2)); s.stop(); LogSystem::Diags d; s.getDiags(d); CHECK(d.m_msgReceived == 2); return 0; }""", 'the level lowered between logging and delivering', 'delivered messages are not counted', src=LOG)
seed('c18-negative', 'C18', [(LS, '	m_messages.push_back(msg);', '	if(msg->m_line < 0) {\n		m_messages.push_front(msg);\n	}\n	else {\n		m_messages.push_back(msg);\n	}')],
 LH + CHK + """int main() { LogSystem s(false); auto r = std::make_shared<Rec>(); s.addListener(r); s.log("f", 1, LogSystem::INFO, "", "one"); s.log("f", -1, LogSystem::INFO, "", "two"); s.start(); CHECK(waitFor(*r, 2)); s.stop(); CHECK(r->got[0].m_message == "one"); return 0; }""", 'a message without a line (a negative one)', 'it overtakes the ones waiting', src=LOG)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[2:] or list(SEEDS)
    if 'write' in sys.argv[1]:
        for i in ids: write(i)
    if 'confirm' in sys.argv[1]:
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(confirm, ids): print(r, flush=True)
    if 'check' in sys.argv[1]:
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(check, ids): print(r, flush=True)
