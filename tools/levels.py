_H = 'stateless model checking of the real code: every operation history up to a bound is executed, '
TECHNIQUE = {
    '': _H + 'in lock step with a reference model',
    'C10': _H + 'for every kind of callable, with every callable object tracked',
    'C13': 'stateless model checking of the real code: every interleaving of the steps of every pair, triple and quadruple of scripts, compared with each script alone; plus lock-step histories of several coroutines',
    'C14': _H + 'every iterator operation compared with a reference stream',
    'C15': _H + 'every iterator operation compared with a reference stream',
    'C16': 'stateless model checking of the real code: every combination of payload and callable size/alignment and stack size/placement within bounds, with red zones around every stack',
    'C18': 'exhaustive exploration of the same bounded histories in every build mode; the sets of observation traces are compared',
    'C19': _H + 'for every payload type and every sequence of reads',
    'C20': 'stateless model checking under a controlled scheduler: every schedule of scripts on 2-3 threads within bounds (step granularity; bounded preemption inside operations), exact happens-before race detection on each; plus every assignment of the operations of a history to threads',
    'C21': _H + 'on the real stack allocators, with guard pages, heap blocks and reuse observed',
    'C23': 'exhaustive exploration of a bounded state space; in every state the instructions (single-stepped) and allocations of a resumption are counted and compared',
}
NOTES = {
    '': 'Every history within the stated bounds is executed on the real library and compared step by step with the reference model; nothing is said beyond the bounds. Trusts the harness, the compilers and the context switch of Boost.Context.',
    'C18': 'Two builds agree iff they show the same set of observation traces on all histories within the bounds; modes are those of g++ 13 and clang++ 18 on x86-64 Linux, fcontext and ucontext.',
    'C20': 'No data race and no deviation on any schedule within the bounds. Memory accesses of the headers and the scripts are observed through compiler instrumentation; accesses inside Boost.Context\'s and libstdc++\'s binaries are not.',
    'C23': 'Instructions executed stand for time; constant over all states within the bounds (up to 50 other coroutines quick, 58 thorough; up to 1000/10000 earlier switches). Falls back to allocations only where single-stepping is impossible.',
}
NOT_APPLICABLE = {
    'C22': 'The property is about programs that must be rejected by the compiler: there is no execution or state to enumerate, the deciding step would be the compiler\'s type checker.',
}
