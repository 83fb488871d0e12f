"""What each check builds and explores."""

_N = ['-O2', '-DNDEBUG']
_UC = ['-DBOOST_USE_UCONTEXT']
_ASAN = ['-O1', '-g', '-DBOOST_USE_UCONTEXT', '-DBOOST_USE_ASAN', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
MODES = {
    'g11': ('g++', ['-std=c++11'] + _N),
    'g14': ('g++', ['-std=c++14'] + _N),
    'g17': ('g++', ['-std=c++17'] + _N),
    'g20': ('g++', ['-std=c++20'] + _N),
    'g23': ('g++', ['-std=c++23'] + _N),
    'w17': ('g++', ['-std=c++17', '-DBOOST_NO_CXX14_GENERIC_LAMBDAS'] + _N),      # C++11 code path with std::invoke
    'g11a': ('g++', ['-std=c++11', '-O1']),
    'g14a': ('g++', ['-std=c++14', '-O1']),
    'g17a': ('g++', ['-std=c++17', '-O1']),
    'g17O0': ('g++', ['-std=c++17', '-O0']),
    'g11O0': ('g++', ['-std=c++11', '-O0']),
    'g17O3': ('g++', ['-std=c++17', '-O3', '-DNDEBUG']),
    'g11O3': ('g++', ['-std=c++11', '-O3', '-DNDEBUG']),
    'c11': ('clang++', ['-std=c++11'] + _N),
    'c14': ('clang++', ['-std=c++14'] + _N),
    'c17': ('clang++', ['-std=c++17', '-O1']),
    'c20': ('clang++', ['-std=c++20'] + _N),
    'u11': ('g++', ['-std=c++11', '-O1'] + _UC),
    'u17': ('g++', ['-std=c++17'] + _N + _UC),
    'ua11': ('g++', ['-std=c++11'] + _ASAN),
    'ua17': ('g++', ['-std=c++17'] + _ASAN),
}
_C = ['explorer.cpp', 'world.cpp', 'ucontext_shim.cpp']
DRIVERS = {
    'machine': _C + ['machine.cpp', 'handles_a.cpp', 'handles_b.cpp', 'handles_c.cpp', 'handles_d.cpp', 'scenarios.cpp'],
    'streams': _C + ['streams_a.cpp', 'streams_b.cpp', 'streams_c.cpp', 'streams_d.cpp', 'streams_r.cpp'],
    'repeat': _C + ['repeat.cpp'],
    'functors': _C + ['functors_%s.cpp' % x for x in 'abcdef'],
    'layout': _C + ['layout_%s.cpp' % x for x in 'abcdefgh'],
    'allocs': _C + ['allocs_m.cpp', 'allocs_a.cpp', 'allocs_b.cpp'],
    'cost': _C + ['cost.cpp'],
    'indep': _C + ['indep.cpp'],
    'threads': _C + ['race.cpp', 'threads.cpp@race'],
    'chain': _C + ['chain.cpp'],
    'iters': _C + ['iters_a.cpp', 'iters_b.cpp', 'iters_c.cpp', 'iters_d.cpp'],
}
# additional compiler flags of sources marked @x
EXTRA = {'race': ['-fsanitize=thread']}
ASSUME = [
    'g++ 13 / clang++ 18 on x86-64 Linux, Boost 1.83 (Boost.Context) as installed; headers under test from /repo/include',
    'behaviour outside the stated operation alphabet, payload/callable/allocator types and bounds is not covered',
    'the context switch itself (assembly of Boost.Context, swapcontext) and the compilers are trusted',
]
_Q = ['g11', 'g17a']
_T = ['g11', 'g14a', 'g17', 'g17a', 'w17', 'c20', 'u17', 'ua17', 'ua11']


def M(globs, scope, quick=_Q, thorough=_T, **kw):
    r = {'driver': 'machine', 'globs': globs, 'scope': ['CONTROL', 'EXEC'] + scope, 'modes_quick': quick, 'modes_thorough': thorough}
    r.update(kw)
    return r


def D(driver, scope, globs=None, quick=_Q, thorough=_T, **kw):
    r = {'driver': driver, 'globs': globs, 'scope': scope, 'modes_quick': quick, 'modes_thorough': thorough}
    r.update(kw)
    return r


_ALLX = ['VALUE', 'BOOLV', 'EXC', 'UNWIND', 'LIFE', 'COPYMOVE', 'REFID', 'FUNCTOR', 'STACK', 'LEAK']
_Q6 = ['g17', 'g11', 'g17O0', 'g20', 'c11', 'c17', 'u11', 'u17']
_T12 = ['g17', 'g11', 'g11O0', 'g17O0', 'g14', 'g14a', 'g20', 'g23', 'g11O3', 'g17O3', 'c11', 'c14', 'c17', 'c20', 'w17', 'u11', 'u17']
CHECKS = {
    'C01': {'runs': [M(['xfer.*', 'modes.*', 'long.*', 'moveread*', 'mixtypes*', 'pipeline*'], ['VALUE']),
                     D('streams', ['VALUE', 'EXEC', 'REFID']), D('iters', ['VALUE'], ['*.Trk', '*.Trk.deep', '*.string*'], quick=['g11']),
                     D('chain', ['VALUE'], ['chain.pairs', 'chain.allpairs', 'ring*'], quick=['g11'])]},
    'C02': {'runs': [M(['ctl.*', 'nest.*', 'long.*.void*', 'long.*.Trk*', 'exc.*', 'mixnest*', 'pipeline*', 'life.*', 'inflight.*'], []),
                     D('chain', ['CONTROL', 'EXEC', 'INDEP'], ['chain.*', 'frames*', 'repetitions.resume*'])]},
    'C03': {'runs': [M(['nest.*', 'mixnest*', 'mixtypes*', 'pipeline*', 'mixown*', 'excnest*', 'migrate.nest*', 'unwind.*', 'life.*', 'inflight.*'], []),
                     D('chain', ['CONTROL', 'EXEC'], ['chain.*', 'ring*'])]},
    'C04': {'runs': [M(['xfer.*', 'ctl.*', 'exc.*', 'move.*', 'mixtypes*', 'alloc.*', 'life.*'], ['BOOLV']),
                     D('streams', ['BOOLV']), D('chain', ['BOOLV'], ['chain.pairs', 'chain.allpairs', 'ring*'], quick=['g17a'])]},
    'C05': {'runs': [M(['exc.*', 'excnest.*', 'alloc.*', 'fail.*', 'long.*', 'ctl.*', 'life.*', 'inflight.*'], ['EXC', 'LEAK']),
                     D('iters', ['EXC'], quick=['g11']),
                     D('chain', ['EXC', 'CONTROL', 'INDEP', 'LEAK'], ['chain.*', 'ring*', 'frames*', 'repetitions.throw*'])]},
    'C06': {'runs': [M(['unwind.*', 'ctl.*', 'mixown*', 'pipeline*', 'long.*', 'life.*', 'inflight.*'], ['UNWIND', 'LEAK']),
                     D('chain', ['UNWIND', 'CONTROL', 'INDEP', 'LEAK'], ['chain.*', 'ring*', 'frames*', 'repetitions.life*'])]},
    'C07': {'runs': [M(['xfer.*', 'modes.*', 'fail.*', 'long.*', 'moveread*'], ['LIFE', 'LEAK']),
                     D('streams', ['LIFE', 'LEAK']), D('iters', ['LIFE', 'LEAK'], ['*.Trk', '*.Trk.deep', '*.MoveOnly*'], quick=['g11']),
                     D('chain', ['LIFE', 'LEAK', 'INDEP'], ['repetitions.*', 'ring*'], quick=['g17a'])]},
    'C08': {'runs': [M(['modes.*', 'xfer.*', 'long.*'], ['COPYMOVE']),
                     D('streams', ['COPYMOVE']), D('iters', ['COPYMOVE'], quick=['g11'])]},
    'C09': {'runs': [M(['xfer.*.Trk&*', 'xfer.*.Trk const&*', 'modes.*.Trk&*', 'modes.*.Trk const&*', 'long.*.Trk&*', 'long.*.Trk const&*', 'move*.Trk&*', 'mixtypes*'], ['REFID']),
                     D('streams', ['REFID'], ['refs.*', 'conversions']), D('iters', ['REFID', 'COPYMOVE', 'LIFE'], ['*.Trk&*', '*.Trk_const&*']),
                     D('chain', ['REFID'], ['chain.pairs', 'chain.allpairs', 'ring*'], quick=['g17a'])]},
    'C10': {'runs': [D('functors', ['FUNCTOR', 'EXC', 'LEAK', 'EXEC']),
                     M(['alloc.*', 'ctl.*', 'exc.*', 'unwind.*'], ['FUNCTOR', 'LEAK'], quick=['g11'])]},
    'C11': {'runs': [M(['alloc.*', 'long.*.void*', 'long.*.Trk*', 'exc.*', 'unwind.*', 'ctl.*', 'failnest.*', 'move.*', 'life.*'], ['STACK', 'LEAK']),
                     D('allocs', ['STACK', 'LEAK'], quick=['g11']), D('functors', ['STACK', 'LEAK'], quick=['g17a']),
                     D('chain', ['STACK', 'LEAK', 'INDEP'], ['chain.pairs', 'chain.allpairs', 'ring*', 'repetitions.life*', 'repetitions.throw*'], quick=['g11'])]},
    'C12': {'runs': [M(['move.*', 'moveread*', 'mixown*', 'long.*', 'alloc.*'], _ALLX, relevant='MOVE'),
                     D('chain', ['INDEP'], ['repetitions.move*'])], 'count_relevant': True},
    'C13': {'runs': [D('indep', ['INDEP', 'LEAK', 'LIFE', 'STACK']),
                     D('chain', _ALLX + ['CONTROL', 'EXEC', 'INDEP'], ['ring*', 'repetitions.*']),
                     M(['mixtypes*', 'mixnest*', 'pipeline*', 'failnest.*', 'excnest.*'], _ALLX, relevant='MULTI', quick=['g17'])], 'count_relevant': True},
    'C14': {'runs': [D('iters', ['ITERIN', 'EXEC', 'EXC', 'BOOLV'], ['iterin.*']), D('chain', ['INDEP'], ['repetitions.iter*'], quick=['g17a'])]},
    'C15': {'runs': [D('iters', ['ITEROUT', 'EXEC', 'EXC', 'BOOLV', 'COPYMOVE'], ['iterout.*']), D('chain', ['INDEP'], ['repetitions.iter*'], quick=['g11'])]},
    'C16': {'runs': [D('layout', ['ALIGN', 'STACK', 'LIFE', 'EXC']),
                     M(['xfer.*.Align128*', 'xfer.*.Big*', 'long.*.Align128*', 'long.*.Big*'], ['ALIGN'], quick=['g11'])]},
    'C17': {'runs': [M(['fail.*', 'failnest.*', 'xfer.*'], _ALLX, relevant='FAIL'),
                     D('iters', _ALLX + ['ITEROUT', 'CONTROL', 'EXEC'], ['iterout.*.Trk', 'iterout.*.Trk.deep', 'iterout.*.MoveOnly*'], quick=['g17a'], relevant='FAIL'),
                     D('chain', ['INDEP'], ['repetitions.fail*'])], 'count_relevant': True},
    'C18': {'runs': [M(['modes.*', 'xfer.*.void', 'xfer.*.Trk', 'xfer.*.Trk&', 'fail.*', 'exc.*', 'alloc.*', 'unwind.*', 'moveread*', 'mixtypes*'], [], quick=_Q6, thorough=_T12, digest=True),
                     D('functors', ['HARNESS'], quick=['g17', 'g11', 'w17', 'c11', 'c17'], thorough=_T12, digest=True),
                     D('streams', ['HARNESS'], quick=['g17', 'g11', 'c20'], thorough=_T12, digest=True),
                     D('iters', ['HARNESS'], ['*.Trk*', '*.MoveOnly*'], quick=['g17', 'g11'], thorough=_T12, digest=True)]},
    'C19': {'runs': [D('repeat', ['REPEAT'], quick=['g11', 'g17a', 'c20'])]},
    'C20': {'runs': [M(['migrate.*'], _ALLX, relevant='THREAD'),
                     D('threads', ['THREAD', 'LEAK', 'LIFE', 'STACK'], quick=['g11', 'g17a', 'c17'], thorough=['g11', 'g11a', 'g17', 'g17a', 'c11', 'c20'])], 'count_relevant': True},
    'C21': {'runs': [D('allocs', ['ALLOC', 'STACK', 'EXEC', 'UNWIND', 'BOOLV', 'EXC', 'LEAK'], quick=['g11', 'g17a', 'c20'])]},
    'C23': {'runs': [D('cost', ['COST'], quick=['g17', 'g11'], thorough=['g11', 'g17', 'g17O0', 'g11O0', 'g17O3', 'c11', 'c20'])]},
}
