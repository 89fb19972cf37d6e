CHECKS = {}
def check(cid, runs, **k):
    CHECKS[cid] = dict(runs=runs, **k)
check('C01', [dict(name='lifo', src='c01.cpp', params=dict(ps0=1, ps=3, pa=2, hist=4, ops=4), thorough=dict(ps0=1, ps=4, pa=2, hist=5, ops=5),
    reach=['push2', 'pop2', 'pop3', 'settop', 'end'],
    bounds='page size 1..ps, preallocation 1..pa, history of up to hist pushes and any number of pops, then every sequence of ops operations (10 kinds), all 32-bit element values; then drained and refilled'),
  dict(name='large', src='c01.cpp', params=dict(ps0=4, ps=4, pa=2, hist=19, ops=1), thorough=dict(ps=5, pa=4, hist=32), reach=['push2', 'pop2', 'pop3', 'settop', 'end'],
    bounds='page size ps0..ps0+ps-1, preallocation 1..pa, up to hist pushes and any number of pops, then one operation')])

check('C02', [dict(name='bulk', src='c02.cpp', params=dict(ps0=1, ps=3, pa=2, hist=5, ops=2), thorough=dict(ps0=1, ps=3, pa=2, hist=6, ops=3),
    reach=['discard_n', 'discard_it', 'discard_rit', 'pop_reverse', 'clear', 'end'],
    bounds='page size 1..ps, preallocation 1..pa, history of up to hist pushes and any number of pops, then every sequence of ops removals/insertions at every position, all element values'),
  dict(name='large', src='c02.cpp', params=dict(ps0=4, ps=2, pa=2, hist=14, ops=1), thorough=dict(ps=4, pa=3, hist=20), reach=['discard_n', 'discard_it', 'discard_rit', 'pop_reverse', 'clear', 'end'],
    bounds='page size ps0..ps0+ps-1, preallocation 1..pa, up to hist pushes and any number of pops, then one removal at every position')])
check('C03', [dict(name='iter', src='c03.cpp', params=dict(ps0=1, ps=3, pa=3, hist=5, walk=3), thorough=dict(ps0=1, ps=4, pa=3, hist=8, walk=4),
    reach=['all', 'dec', 'plus', 'from_top', 'write'],
    bounds='page size 1..ps, preallocation 1..pa, any content reached by up to hist pushes and any pops (with spare pages), every walk of walk steps (6 kinds of step)'),
  dict(name='large', src='c03.cpp', params=dict(ps0=5, ps=2, pa=2, hist=12, walk=2), thorough=dict(ps=3, pa=3, hist=18, walk=2), reach=['all', 'dec', 'plus', 'from_top', 'write'],
    bounds='page size ps0..ps0+ps-1, up to hist pushes and any pops, two steps (of any length)')])
check('C04', [dict(name='peek', src='c04.cpp', params=dict(ps0=1, ps=4, pa=3, hist=7), thorough=dict(ps0=1, ps=6, pa=3, hist=12),
    reach=['distribute', 'peek', 'peek_reverse', 'peek_depth'],
    bounds='1..4 destinations (1..5 for distribute), every depth, page size 1..ps, preallocation 1..pa, up to hist elements, all values'),
  dict(name='large', src='c04.cpp', params=dict(ps0=5, ps=3, pa=2, hist=17), thorough=dict(ps=4, pa=3, hist=24), reach=['distribute', 'peek', 'peek_reverse', 'peek_depth'],
    bounds='page size ps0..ps0+ps-1, up to hist elements, every depth')])
check('C05', [dict(name='mem', src='c05.cpp', params=dict(ps=3, pa=2, hist=4, ops=4, capacity=1), thorough=dict(ps=3, pa=3, hist=5, ops=5),
    reach=['shrink', 'alias', 'end'],
    bounds='page size 1..ps, preallocation 1..pa, up to hist pushes/pops then every sequence of ops operations (11 kinds, inserting elements of the stack itself included) over elements that register their address and own memory; every memory access checked')])
R06 = ['attop', 'spare', 'another', 'insync', 'resync', 'emptied', 'inc', 'copy', 'destroy', 'deferred']
B06 = 'up to two synchronised iterators, page size 1..ps, preallocation 1..pa, up to hist pushes/pops then every sequence of ops stack/iterator operations (12 kinds)'
check('C06', [dict(name='sync', src='c06.cpp', params=dict(ps=2, pa=2, hist=3, ops=4, constit=0), thorough=dict(ps=3, pa=2, hist=4, ops=5), reach=R06, bounds=B06),
    dict(name='csync', src='c06.cpp', params=dict(ps=2, pa=1, hist=3, ops=4, constit=1), thorough=dict(ps=3, pa=2, hist=4, ops=5), reach=R06, bounds=B06 + '; const iterators')])
check('C08', [dict(name='copy', src='c08.cpp', params=dict(ps=2, pa=2, hist=3, ops=2), thorough=dict(ps=3, pa=2, hist=4, ops=3),
    reach=['copy', 'move', 'assign', 'moveassign', 'self', 'end'],
    bounds='source and target of any content (up to hist pushes, any pops) and paging, copied/moved/assigned (also onto itself), then every sequence of ops modifications on either, elements owning memory')])
check('C09', [dict(name='throwing', src='c09.cpp', params=dict(ps=3, pa=2, hist=4, ops=2, mode=0, at=0), thorough=dict(ps=3, pa=2, hist=6, ops=3),
    reach=['threw', 'nomem', 'fine', 'end'],
    bounds='every fault point: any element copy/construction of an insertion of 1..3 elements throws, or any allocation during it fails; any content by up to hist pushes/pops; ops insertions in a row'),
  dict(name='reads', src='c09.cpp', params=dict(ps=3, pa=2, hist=5, ops=0, mode=1, at=4), thorough=dict(ps=4, pa=3, hist=7, at=10), reach=['threw', 'nomem', 'fine', 'end'],
    bounds='the at-th element assignment, copy or allocation of a pop (1, 2), pop_reverse(3), peek (three forms), stack copy or assignment (both ways) fails, on any content by up to hist pushes/pops')])
check('C10', [dict(name='spin%d' % n, src='c10.cpp', threads=True, params=dict(spin=n, rounds=1, threads=2, yields=0), cflags=['-Dsched_yield=c10_yield'], thorough=dict(rounds=2, threads=2), reach=['end', 'asking'], wits=3,
    bounds='Futex<%d>: two threads and the main one, every interleaving of their atomic operations' % n) for n in (0, 1, 2, 50)]
  + [dict(name='three', src='c10.cpp', threads=True, params=dict(spin=0, rounds=1, threads=3, yields=0), cflags=['-Dsched_yield=c10_yield'], thorough_only=True, reach=['end'], bounds='three threads')]
  + [dict(name='yields%d' % n, src='c10.cpp', threads=True, params=dict(spin=n, rounds=1, threads=2, yields=3), cflags=['-Dsched_yield=c10_yield'], thorough=dict(yields=5), opts=['--spin', str(n + 4)], reach=['yielded'], wits=1, bounds='a holder that releases only after the contender has yielded `yields` times') for n in (1, 2, 50)],
  assumptions=['interleavings are sequentially consistent per atomic operation; weaker orderings are covered by the vector-clock race check on the protected data', 'a spinning thread is parked until the lock word changes (fair scheduler)'])
check('C11', [dict(name='single', src='c11.cpp', repo=['src/engine/futex.cpp'], threads=True, params=dict(mode=0, ops=5, depth=2, threads=2), thorough=dict(ops=9), reach=['surplus', 'single'], wits=4,
    bounds='every sequence of up to ops locks/unlocks by one thread, observed by other threads'),
   dict(name='threads', src='c11.cpp', repo=['src/engine/futex.cpp'], threads=True, params=dict(mode=1, ops=0, depth=2, threads=2), thorough=dict(threads=3), reach=['threads'], wits=3,
    bounds='threads with recursion depth 1..depth each, every interleaving'),
   dict(name='deep', src='c11.cpp', repo=['src/engine/futex.cpp'], threads=True, params=dict(mode=2, ops=0, depth=7, threads=2), thorough=dict(depth=10), reach=['deep'], wits=3, bounds='recursion depths up to 1000 (thorough: 65536), with a contender at the last release')],
  assumptions=['fair scheduler'])
check('C33', [dict(name='atomics', src='c33.cpp', threads=True, params=dict(rep=1), thorough=dict(rep=3), reach=['seq', 'conc', 'cas_ok', 'cas_no'],
    bounds='all 32-bit operands of every operation; two threads repeating one operation rep times each, every interleaving')])
check('C34', [dict(name='seq', src='c34.cpp', params=dict(threads=0), reach=['end'], bounds='every choice of accessors, holders and writers'),
    dict(name='threads', src='c34.cpp', threads=True, params=dict(threads=1), reach=['end'], wits=4, bounds='three threads racing for the first use, every interleaving and choice of accessors')])
check('C07', [dict(name='lin', src='c07.cpp', threads=True, params=dict(opsA=1, opsB=1, init=5), thorough=dict(opsA=2, opsB=1), reach=['end'], wits=4, bounds='two threads with opsA and opsB operations each out of 31 kinds (assignments not together with iterators, which they invalidate), page size 1..2, every interleaving of lock acquisitions; std::mutex'),
   dict(name='lin21', src='c07.cpp', threads=True, params=dict(opsA=2, opsB=1, init=5), opts=['--preempt', '3'], thorough=dict(opsA=2, opsB=2), thorough_opts=['--preempt', '4'], reach=['end'], wits=4, bounds='as above, with at most three (thorough: four) preemptions')])
check('C12', [dict(name='scalars', src='c12.cpp', repo=['src/engine/handlerfactory.cpp'], params=dict(span=16), thorough=dict(span=128), thorough_opts=[], reach=['text', 'float', 'nil', 'refused', 'data', 'locale'],
    bounds='every value of every scalar type for reading back and conversions (all 2^64 doubles in the int64 range, NaN excluded); decimal text for all 8-bit values and for span values around each of 12 width boundaries; a table of 11 numerics for their text; texts also under a global locale with its own punctuation')])
check('C13', [dict(name='lifetimes', src='c13.cpp', repo=['src/engine/handlerfactory.cpp'], params=dict(mode=0, ops=4, items=2, maxlen=2, len=0), thorough=dict(ops=5, items=3), reach=['copy', 'assign', 'self', 'bignum', 'lifetimes'],
    bounds='every sequence of ops creations/copies/assignments/destructions over `items` items holding strings of symbolic content, big numbers or integers'),
  dict(name='values', src='c13.cpp', repo=['src/engine/handlerfactory.cpp'], params=dict(mode=1, ops=0, items=0, maxlen=0, len=4), thorough=dict(len=6), reach=['number', 'nonnumber', 'cstr', 'bigvalues', 'longer'],
    bounds='every string of up to len bytes, 13 lengths from 5 to 70001 with symbolic bytes, the 64-bit limits, and a table of 8 big numbers')])
check('C14', [dict(name='handlers', src='c14.cpp', o0=True, repo=['src/engine/handlerfactory.cpp'], reach=['end'], bounds='all six handlers and the two deep handler templates over a tracked type; every destruction order; all 64-bit flat values')])
check('C15', [dict(name='code', src='c15.cpp', repo=['src/engine/code.cpp'], params=dict(ops=4, items=2, lens=5), thorough=dict(ops=5, items=3, lens=6), reach=['copy', 'move', 'self', 'assign', 'moveassign', 'ops', 'lengths'],
    bounds='every sequence of ops creations/copies/moves/assignments/destructions over `items` objects with texts of length 0..40 and symbolic bytes; 19 lengths up to 70000')])
check('C16', [dict(name='token', src='c16.cpp', repo=['src/engine/code.cpp', 'src/engine/compiler.cpp'], params=dict(len=4, compiles=2), thorough=dict(len=6, compiles=3), reach=['first', 'second', 'none', 'end', 'longer'],
    bounds='every input of up to len bytes, `compiles` compilations in a row; tokens of 20 lengths up to 70000 with symbolic bytes, followed by another one or not; streams with default (non-throwing) exception mask')])
LS = ['src/engine/logsystem.cpp']
check('C17', [dict(name='regex', src='c17.cpp', repo=LS, params=dict(mode=0, plen=2, clen=2, alpha=18), thorough=dict(plen=3, clen=3), reach=['match', 'nomatch', 'invalid', 'end'],
    bounds='every filter expression of up to plen characters out of 18 (all operators) over three previous filters, every category of up to clen bytes (8-bit), against std::regex'),
  dict(name='turns', src='c17.cpp', repo=LS, params=dict(mode=4, plen=3, clen=0, alpha=1), thorough=dict(plen=4), reach=['turns', 'end'], bounds='every sequence of plen settings (five filters, or none) and uses (three categories)'),
  dict(name='long', src='c17.cpp', repo=LS, params=dict(mode=5, plen=9, clen=0, alpha=1), reach=['longer', 'end'], wits=3, bounds='filters and categories of 9 lengths from 15 to 100, equal or differing at either end or in length'),
  dict(name='delivery', src='c17.cpp', repo=LS, threads=True, opts=['--preempt', '0'], params=dict(mode=1, plen=0, clen=0, alpha=1), reach=['delivered', 'filtered', 'end'],
    bounds='every system, listener and message level, enablement and 4 filters x 4 categories, two listeners at once; deliveries without preemption (interleavings are C18)'),
  dict(name='changes', src='c17.cpp', repo=LS, threads=True, opts=['--preempt', '2'], params=dict(mode=2, plen=0, clen=0, alpha=1), thorough_opts=['--preempt', '3'], reach=['changed', 'end'], wits=4, bounds='category filter (valid or not), level or enablement of a listener changed while four messages are delivered, at most two (thorough: three) preemptions'),
  dict(name='reading', src='c17.cpp', repo=LS, threads=True, opts=['--preempt', '3'], params=dict(mode=3, plen=0, clen=0, alpha=1), thorough_opts=['--preempt', '5'], reach=['reading', 'end'], wits=4, bounds='filter, level, enablement and detachment of a listener changed by one thread while another reads them once or twice, at most three (thorough: five) preemptions')])
check('C18', [dict(name='threads', src='c18.cpp', repo=LS, threads=True, opts=['--preempt', '4'], params=dict(mode=0, msgsA=2, msgsB=1, start=1, bursts=0, nb=1), thorough=dict(msgsA=2, msgsB=2), thorough_opts=['--preempt', '5'], reach=['threads'], wits=4,
    bounds='two producers of msgsA and msgsB messages racing with the delivery thread, at most four (thorough: five) preemptions'),
  dict(name='late', src='c18.cpp', repo=LS, threads=True, opts=['--preempt', '3'], params=dict(mode=0, msgsA=1, msgsB=1, start=0, bursts=0, nb=1), thorough=dict(msgsA=2, msgsB=2), reach=['threads'], wits=4, bounds='as above, delivery started after the first messages'),
  dict(name='wakeups', src='c18.cpp', repo=LS, threads=True, opts=['--preempt', '3', '--spurious', '1'], params=dict(mode=0, msgsA=1, msgsB=1, start=1, bursts=0, nb=1), thorough=dict(msgsA=2), thorough_opts=['--preempt', '4', '--spurious', '2'], reach=['threads'], wits=4, bounds='two producers of msgsA and msgsB messages, a waiting thread waking up spuriously once (thorough: twice), at most three (four) preemptions'),
  dict(name='volume', src='c18.cpp', repo=LS, threads=True, opts=['--preempt', '0'], params=dict(mode=1, msgsA=0, msgsB=0, start=0, bursts=2, nb=4), thorough=dict(bursts=2, nb=8), reach=['volume', 'own'], wits=4,
    bounds='every combination of `bursts` bursts of 2, 0, 66, 64 (thorough also 1, 63, 65, 70) messages around the pool size, one with symbolic level, category and text (texts up to 9000 characters); some without text or file; records recycled between bursts; no preemption'),
  dict(name='flood', src='c18.cpp', repo=LS, threads=True, opts=['--preempt', '0'], params=dict(mode=2, msgsA=0, msgsB=0, start=0, bursts=1, nb=11), reach=['volume', 'own'], wits=2, bounds='one burst of 11 sizes from 100 to 2500 messages; no preemption')])
check('C19', [dict(name='seq', src='c19.cpp', repo=LS, threads=True, opts=['--preempt', '1'], params=dict(mode=0, ops=5), thorough=dict(ops=6), thorough_opts=['--preempt', '2'], reach=['start', 'stop', 'caughtup', 'drained', 'end'], wits=4,
    bounds='every sequence of up to ops starts, stops, messages and waits from either initial state, delivery thread preempted once (thorough: twice)'),
  dict(name='threads', src='c19.cpp', repo=LS, threads=True, opts=['--preempt', '2'], params=dict(mode=1, ops=2), thorough=dict(ops=2), thorough_opts=['--preempt', '3'], reach=['end'], wits=4, bounds='two threads doing ops starts, stops or messages each, at most two (thorough: three) preemptions'),
  dict(name='wakeups', src='c19.cpp', repo=LS, threads=True, opts=['--preempt', '1', '--spurious', '1'], params=dict(mode=0, ops=3), thorough=dict(ops=4), thorough_opts=['--preempt', '1', '--spurious', '2'], reach=['start', 'stop', 'caughtup', 'end'], wits=4, bounds='every sequence of up to ops operations, a waiting thread waking up spuriously once (thorough: twice), one preemption'),
  dict(name='volume', src='c19.cpp', repo=LS, threads=True, opts=['--preempt', '0'], params=dict(mode=2, ops=5), thorough=dict(ops=7), reach=['volume', 'delivered', 'end'], wits=3, bounds='a stopped system destroyed with 0, 1, 63, 64 or 65 (thorough also 70, 130) messages pending, after as many delivered or not, with a listener added or detached in between; no preemption')])
check('C20', [dict(name='seq', src='c20.cpp', repo=LS, threads=True, opts=['--preempt', '1'], params=dict(mode=0, ops=4), thorough=dict(ops=5), thorough_opts=['--preempt', '2'], reach=['log', 'add', 'detach', 'disable', 'sync', 'dropped', 'end'], wits=4,
    bounds='every sequence of up to ops messages, additions, detachments, (dis)ablements and waits, with the delivery thread running beside and preempted once (thorough: twice)'),
  dict(name='threads', src='c20.cpp', repo=LS, threads=True, opts=['--preempt', '2'], params=dict(mode=1, ops=0), thorough_opts=['--preempt', '3'], reach=['threads', 'end'], wits=4, bounds='one thread adds, disables and detaches while another logs, at most two (thorough: three) preemptions'),
  dict(name='many', src='c20.cpp', repo=LS, threads=True, opts=['--preempt', '0'], params=dict(mode=2, ops=0), reach=['many', 'end'], wits=3, bounds='14 numbers of listeners from 3 to 300, five patterns of which are detached or disabled, one or as many added afterwards; no preemption')])
check('C21', [dict(name='idle', src='c21.cpp', repo=LS, threads=True, opts=['--preempt', '0'], params=dict(mode=0, rounds=2, nb=3, reads=0), thorough=dict(nb=7), reach=['own', 'detach', 'discarded', 'toggle', 'end'], wits=4,
    bounds='`rounds` bursts of messages of nb sizes around the pool threshold, up to two listeners added per round, disabled, enabled and detached in every combination'),
  dict(name='threads', src='c21.cpp', repo=LS, threads=True, opts=['--preempt', '3'], params=dict(mode=1, rounds=0, nb=1, reads=2), thorough=dict(reads=3), thorough_opts=['--preempt', '4'], reach=['threads', 'end'], wits=4, bounds='diagnostics read `reads` times while another thread logs, adds, disables and detaches; data races detected by vector clocks'),
  dict(name='unheard', src='c21.cpp', repo=LS, threads=True, opts=['--preempt', '1'], params=dict(mode=3, rounds=0, nb=1, reads=0), thorough_opts=['--preempt', '3'], reach=['unheard', 'end'], wits=4, bounds='one to three messages of which the first is for a listener that leaves, up to two more, and one with a new listener; at most one (thorough: three) preemptions'),
  dict(name='flood', src='c21.cpp', repo=LS, threads=True, opts=['--preempt', '0'], params=dict(mode=2, rounds=6, nb=5, reads=0), thorough=dict(rounds=8), thorough_opts=['--preempt', '0', '--insts', '400000000'], reach=['flood', 'end'], wits=2, bounds='one burst of 6 (thorough: 8) sizes from 127 to 2049 (65537) messages, before 1 to 1026 listeners of which a third are disabled, half detached afterwards; no preemption')])
LG = LS + ['src/engine/logger.cpp', 'src/engine/logstream.cpp']
R22 = ['log', 'instatement', 'inblock', 'temp', 'block', 'nested', 'left', 'format', 'direct', 'level', 'end']
check('C22', [dict(name='seq', src='c22.cpp', repo=LG, threads=True, opts=['--preempt', '0'], params=dict(mode=0, ops=3, levels=2, minlog=5), thorough=dict(levels=3, ops=3), reach=R22, wits=4,
    bounds='every sequence of up to ops statements (11 kinds up to two statements, 9 in the third: plain, with own category, blocks, nested, left early by break or exception, manipulators, direct interface, level changes, five kinds of statements and blocks composed while a statement or a block is being composed, left by its end, break, continue or return) over `levels` levels and a symbolic character'),
  dict(name='mininfo', src='c22.cpp', repo=LG, threads=True, cflags=['-DFALCON_MIN_LOG_LEVEL=::falcon::LLINFO'], opts=['--preempt', '0'], params=dict(mode=0, ops=2, levels=6, minlog=3), thorough=dict(ops=3, levels=3), reach=R22, wits=4,
    bounds='as above, compiled with a minimum log level of INFO, all six levels'),
  dict(name='disabled', src='c22.cpp', repo=LG, threads=True, cflags=['-DFALCON_MIN_LOG_LEVEL=::falcon::LLDISABLE'], opts=['--preempt', '0'], params=dict(mode=0, ops=2, levels=2, minlog=-1), thorough=dict(ops=2, levels=6), reach=R22, wits=4,
    bounds='as above, compiled with every statement disabled'),
  dict(name='toggle', src='c22.cpp', repo=LG, threads=True, opts=['--preempt', '6'], params=dict(mode=2, ops=0, levels=1, minlog=5), thorough_opts=['--preempt', '8'], reach=['toggle'], wits=4, bounds='one statement or block begun while another thread changes the general level two or three times, at most six (thorough: eight) preemptions'),
  dict(name='types', src='c22.cpp', repo=LG, threads=True, opts=['--preempt', '0'], params=dict(mode=4, ops=0, levels=1, minlog=5), reach=['types'], wits=4, bounds='operands of 22 kinds (every fundamental type, strings, manipulators, stream buffers, ones that throw or spoil the stream), in a statement or a block, logged or not, then two more messages'),
  dict(name='long', src='c22.cpp', repo=LG, threads=True, opts=['--preempt', '0', '--spin', '1000'], params=dict(mode=3, ops=0, levels=1, minlog=5), reach=['long'], wits=3, bounds='texts and categories of 16 lengths from 15 to 65536 with symbolic bytes, blocks of 300 pieces'),
  dict(name='threads', src='c22.cpp', repo=LG, threads=True, opts=['--preempt', '1'], params=dict(mode=1, ops=1, levels=1, minlog=5), thorough_opts=['--preempt', '2'], reach=['threads'], wits=4, bounds='two threads, each every sequence of ops statements and one more, one preemption (thorough: two)')])
check('C23', [dict(name='filter', src='c23.cpp', repo=LG, threads=True, opts=['--preempt', '0'], params=dict(mode=0, ops=3, cats=2, flts=1), thorough=dict(ops=3, cats=4, flts=4), reach=['extra', 'only', 'direct', 'none', 'set', 'cleared', 'clear_none', 'refused', 'end'], wits=4,
    bounds='every sequence of up to ops filters set (flts expressions, two levels), cleared, refused, level changes and messages (cats categories; all levels for the last one) from six initial level settings, the system at rest after each; no preemption'),
  dict(name='flying', src='c23.cpp', repo=LG, threads=True, opts=['--preempt', '1'], params=dict(mode=1, ops=0, cats=0, flts=0), thorough_opts=['--preempt', '2'], reach=['rest', 'flying', 'end'], wits=4, bounds='a filter set (once or twice) and cleared with messages before, between and after, while they are being delivered; one preemption (thorough: two)')])
check('C24', [dict(name='format', src='c24.cpp', repo=LG[:1] + LG[2:], params=dict(mode=0, len=3, fmts=6, ops=0), thorough=dict(len=5), reach=['format', 'locale', 'flushed', 'long', 'second', 'end'],
    bounds='every value of every date field (four years), every level, streams with other formats or locales or under another global locale, or buffered (flushed by each message); file names of up to len bytes, lines 0..199 and 10 boundary ones, categories up to 2 bytes and texts up to 3 (8-bit), file names, directories, categories and texts of 11 lengths from 32 to 65536, target streams with three kinds of own formatting; two messages differing in any of six date fields and any of their parts, on one listener or two'),
  dict(name='switch', src='c24.cpp', repo=LG[:1] + LG[2:], params=dict(mode=1, len=0, fmts=1, ops=4), thorough=dict(ops=6), reach=['borrowed', 'owned', 'shared', 'mute', 'written', 'switch', 'end'], bounds='every sequence of up to ops target changes and messages'),
  dict(name='threads', src='c24.cpp', repo=LG[:1] + LG[2:], threads=True, opts=['--preempt', '3'], params=dict(mode=2, len=0, fmts=1, ops=0), thorough_opts=['--preempt', '6'], reach=['threads', 'end'], wits=4, bounds='every change of target between the three kinds while another thread writes a message, at most three (thorough: six) preemptions'),
  dict(name='pair', src='c24.cpp', repo=LG[:1] + LG[2:], threads=True, opts=['--preempt', '2'], params=dict(mode=3, len=0, fmts=1, ops=0), thorough_opts=['--preempt', '4'], reach=['pair', 'end'], wits=4, bounds='two threads writing one and one or two messages through their own listeners or a common one, at most two (thorough: four) preemptions')],
  assumptions=['local time is a harness stub returning every combination of fields'])
check('C25', [dict(name='proxy', src='c25.cpp', repo=LS, threads=True, opts=['--preempt', '0'], params=dict(mode=0, ops=0), reach=['direct', 'passed', 'filtered', 'end'], wits=4, bounds='every level, enablement and filter of the proxy and of the wrapped listener (three filters, three categories), chains of two proxies, messages without text or file, through the system and directly; no preemption'),
  dict(name='turns', src='c25.cpp', repo=LS, threads=True, opts=['--preempt', '0'], params=dict(mode=1, ops=3), thorough=dict(ops=4), reach=['handed', 'turns'], wits=4, bounds='every sequence of up to ops messages and changes of settings of a proxy or of the wrapped listener and a last message, two proxies of one listener or a proxy of the other, the wrapped listener in the system itself or not; no preemption')])
check('C26', [dict(name='macros', src='c26.cpp', repo=['fut'], opts=['--symfloat'], params=dict(len=2), thorough=dict(len=3), reach=['holds', 'fails', 'float', 'throw', 'mixed', 'long', 'types', 'end'],
    bounds='all pairs of 32-bit values of a user type, a table of 36 integer pairs, tables of 64-bit, unsigned and floating point pairs, strings of 7 lengths up to 5000 with symbolic bytes, all pairs of characters, strings of up to len bytes, all finite doubles against four values and a table of 15 x 15, six kinds of thrown objects against every exception check; whole-expression arguments of 10 shapes')],
  assumptions=['argument expressions without side effects (a failing check evaluates the actual value again to print it)', 'the text of symbolic doubles is not modelled (their judgement is)', 'FAIL does not return: its use in a non-void function by an existing test pins that'])
check('C27', [dict(name='run', src='c27.cpp', repo=['fut'], params=dict(runs=2, words=2), thorough=dict(runs=3, words=3), reach=['big', 'terse', 'success', 'stream', 'setup', 'body', 'teardown', 'again', 'end'],
    bounds='failures and exceptions of each step with empty or one-character (symbolic) descriptions, files and values; every combination of how set-up (4 ways), body (6) and tear-down (4) end, of what they write on either stream (symbolic byte, long text), of the settings of the streams they change (format, locale, tie, state, exception mask, width), with and without capture, after up to runs-1 earlier runs of the same case, direct and through the runner; outputs and descriptions of 15 lengths up to 65536')],
  assumptions=['captured texts without NUL bytes'])
check('C28', [dict(name='suite', src='c28.cpp', repo=['fut'], params=dict(many=0, cases=3, comps=2, sel=2), thorough=dict(cases=3, comps=3, sel=3), reach=['terse', 'again', 'added', 'late', 'component', 'passed', 'failed', 'end'],
    bounds='every suite of up to `cases` cases in up to `comps` components, every outcome (4) of each, every list of up to sel selections (repeated ones too), one run or a second run with, in between, every set of cases repaired, or one more case registered, or one case selected; two cases with empty names and failures without a description'),
  dict(name='many', src='c28.cpp', repo=['fut'], params=dict(many=1, cases=1, comps=1, sel=1), reach=['many'], wits=3, bounds='suites of 15 sizes from 2 to 257 cases, with 1, 7 or all cases in a component, five patterns of failures and four of selections')])
check('C29', [dict(name='options', src='c29.cpp', repo=['fut'], params=dict(words=3, len=3, plen=5), thorough=dict(words=4, len=4, plen=6), reach=['refused', 'help', 'accepted', 'program', 'xml', 'long', 'end'],
    bounds='every vector of up to `words` words out of 16 (the empty one too), every single option word of up to 3 bytes with or without an argument, every verbosity text of up to len bytes, every program name of up to plen bytes, program and suite names of 11 lengths up to 4097')])
check('C30', [dict(name='report', src='c30.cpp', repo=['fut'], params=dict(large=0, cases=2, len=2, dlen=2), thorough=dict(cases=3, len=2, dlen=3), reach=['failure', 'nothing', 'utf8', 'locale', 'longer', 'again', 'end'],
    bounds='texts and names of up to len bytes (empty too); every suite of up to `cases` cases in one or two components with every outcome (4), one or all selected, run once or twice (with some of the failing cases repaired in between), under the classic global locale or one that groups digits with another decimal point, cases lasting 1300, 7 and 61004 ms (or 1000001, 9999999 and 1234567890); component, case and suite names, ids, file names of 1..len and failure texts of 1..dlen symbolic 7-bit bytes or one symbolic two-byte UTF-8 character, one at a time'),
  dict(name='large', src='c30.cpp', repo=['fut'], params=dict(large=1, cases=1, len=1, dlen=1), reach=['large', 'end'], wits=3, bounds='names, ids, file names and failure texts of 11 lengths from 63 to 4097 with symbolic printable characters, one at a time; 8 numbers of cases from 2 to 129')],
  assumptions=['texts in 7-bit or two-byte UTF-8 characters (the report declares UTF-8 and does not recode); control characters XML cannot represent are only required not to break the report'])
check('C31', [dict(name='time', src='c31.cpp', repo=['fut'], params=dict(bits=33, signals=2), thorough=dict(signals=4), reach=['marks', 'clock', 'lapse', 'wait', 'signal', 'failure', 'case', 'setup', 'early', 'suite', 'end'],
    bounds='every pair of non-negative 63-bit marks, every clock reading and wait up to 2^bits seconds with every microsecond, waits interrupted by up to `signals` signals at any moment')],
  assumptions=['the system clock and sleep calls are harness stubs'])
check('C32', [dict(name='verbosity', src='c32.cpp', repo=['fut'], params=dict(cases=2), reach=['bad', 'good', 'terse', 'late', 'single', 'captured', 'through', 'end'],
    bounds='every level, one or two cases with every outcome (3; with an empty description too) and output on either stream (symbolic character, or a long text under a name of 300 characters), run as a suite with and without capture and as a single case')])
check('C35', [dict(name='paging', src='c35.cpp', params=dict(mode=0, ps=3, pa=3, ops=5), thorough=dict(ps=4, pa=3, ops=6), reach=['shrink', 'copy', 'grown', 'end'],
    bounds='page size 1..ps, preallocation 1..pa, every sequence of ops operations (8 kinds) over a stateful allocator'),
  dict(name='default', src='c35.cpp', params=dict(mode=1, ps=0, pa=0, ops=0), reach=['default', 'end'], bounds='default paging, filled around the boundary of the first page and of the preallocated ones')])
check('C36', [dict(name='callbacks', src='c36.cpp', repo=LS, threads=True, opts=['--preempt', '2'], params=dict(mode=0), thorough_opts=['--preempt', '3'], reach=['callback', 'dtor', 'own', 'end'], wits=4,
    bounds='every action (9) on itself or another listener, from the callback or the destructor, first or last of the listeners, with messages pending or not; two preemptions (thorough: three)'),
  dict(name='pairs', src='c36.cpp', repo=LS, threads=True, opts=['--preempt', '0'], params=dict(mode=1), reach=['pairs'], wits=4, bounds='two listeners with any of 9 actions each, on themselves, each other or a third one, while handling the same or successive messages, in three orders; no preemption')])

# large stacks, for each property of the stack they bear on
for _p, _what, _t in (('C01', 1, 'pops of one and three elements down to every depth, then refilled'), ('C02', 2, 'every form of removal at every depth, then refilled and cleared'), ('C03', 3, 'long steps and from_top at every pair of depths, both directions'), ('C04', 4, 'peeks of three elements at every depth'), ('C05', 5, 'addresses and contents after shrinking, removal of every depth and growing again'), ('C06', 6, 'a synchronised iterator at every depth, removals of every depth'), ('C08', 8, 'copies, moves and assignments after removals of every depth'), ('C35', 35, 'page counts after growth, removal of every depth and shrinking')):
    CHECKS[_p]['runs'].append(dict(name='deep', src='deep.cpp', params=dict(what=_what, sizes=18, huge=0), thorough=dict(sizes=19), reach=['deep'], wits=3, bounds='18 sizes from 7 to 1000 elements (thorough: to 2001), page sizes 1, 2, 5, 16, 64, 999, 1000, preallocation 1 or 5, ten depths around page boundaries, middle and ends, values made from one symbolic value: ' + _t))
    CHECKS[_p]['runs'].append(dict(name='huge', src='deep.cpp', opts=['--insts', '400000000'], params=dict(what=_what, sizes=1, huge=1), thorough=dict(sizes=2), reach=['deep'], wits=1, bounds='65537 (thorough also 32769) elements, page sizes 700 and 65536 (66000), five depths'))

# the same over elements that own memory and can be moved from
for _p, _d in (('C01', dict(ps=2, hist=3, ops=4)), ('C02', dict(ps=2, hist=4)), ('C03', dict(ps=2, pa=2, hist=4)), ('C04', dict(ps=3, pa=2, hist=6)), ('C06', dict(hist=3, ops=4)), ('C08', {}), ('C09', {}), ('C09b', {})):
    _r = dict(CHECKS[_p[:3]]['runs'][_p == 'C09b']); CHECKS[_p[:3]]['runs'].append(dict(_r, name='movable' + _p[3:], params=dict(_r['params'], **_d), cflags=_r.get('cflags', []) + ['-DFSX_MOVABLE'], bounds='as ' + _r['name'] + ' over elements that own memory and lose it when moved from' + (' (%s)' % ', '.join('%s=%d' % x for x in _d.items()) if _d else '')))
