# What each check runs. A part is one harness binary; its spaces are explored completely by run_check.py.
def seq(name, harness, **kw): return dict(name=name, harness='seq/' + harness, flavor='plain', **kw)

def mem(name, harness, *flags, **kw): return dict(name=name, harness='seq/' + harness, flavor='asan', memory=True, flags=['-DMC_MEMORY_ONLY'] + list(flags), **kw)

def conc(name, harness, **kw): return dict(name=name, harness='conc/' + harness, flavor='sched', **kw)

VALGRIND = ['valgrind', '--error-limit=no', '--leak-check=no', '--undef-value-errors=yes', '-q']
NOTE = ('Exhaustive over the stated spaces (bounds in the evidence file): every execution runs on the library compiled from the working tree and is compared with a '
        'reference model. Says nothing about operand words outside the boundary alphabet or sizes outside the list. Trusts g++, boost cpp_int and the harness.')
CNOTE = ('Exhaustive over all schedules of the listed programs with at most the stated number of preemptions (evidence: preemption_bound per space), on the compiled code under a '
         'controlled scheduler, with a vector-clock data race detector on every instrumented access. Says nothing about more preemptions or other programs. Only sequentially '
         'consistent values are explored (missing ordering shows as a data race, not as a weak-memory value); accesses inside the uninstrumented libstdc++/libc binaries are not '
         'race-checked. Trusts gcc, its thread-sanitizer instrumentation and lib/sched_rt.cpp.')
CTECH = 'stateless model checking: exhaustive preemption-bounded exploration of all thread schedules of the compiled code under a controlled scheduler, with state caching over happens-before graphs and vector-clock race detection'
CMEAN = 'states: distinct happens-before graphs reached (hash buckets, a lower bound) plus distinct outcomes; transitions: scheduling points executed; traces: complete executions, each run on the implementation itself in its own process'
CASSUME = ['threads interact only through the intercepted primitives (pthread, futex-based std::future/atomic wait, call_once, static guards, std atomics) and instrumented memory', 'sequentially consistent memory; absence of data races is checked rather than assumed', 'a plain access is not a scheduling point: without data races every outcome occurs at synchronisation granularity']
CHECKS = {
    'C01': dict(note=NOTE, parts=[seq('main', 'c01.cpp')]),
    'C02': dict(note=NOTE, parts=[seq('main', 'c02.cpp')]),
    'C03': dict(note=NOTE, parts=[seq('main', 'c03.cpp')]),
    'C04': dict(note=NOTE, parts=[seq('main', 'c04.cpp')]),
    'C05': dict(note=NOTE, parts=[seq('main', 'c05.cpp')]),
    'C06': dict(note=NOTE, parts=[seq('main', 'c06.cpp')]),
    'C07': dict(note=NOTE, parts=[seq('main', 'c07.cpp')]),
    'C08': dict(note=NOTE, parts=[seq('main', 'c08.cpp')]),
    'C09': dict(note=NOTE, parts=[seq('main', 'c09.cpp')]),
    'C10': dict(note=NOTE, parts=[seq('main', 'c10.cpp')]),
    'C11': dict(note=NOTE, parts=[seq('main', 'c11.cpp')]),
    'C12': dict(note=NOTE, parts=[seq('main', 'c12.cpp'), seq('deep', 'c12deep.cpp', mem=0)]),
    'C13': dict(note=NOTE, parts=[seq('main', 'c13.cpp'), seq('deep', 'c12deep.cpp', flags=['-DMC_MALFORMED'], mem=0)]),
    'C19': dict(note=NOTE, parts=[seq('main', 'c19.cpp')]),
    'C20': dict(note=NOTE, parts=[seq('main', 'c20.cpp')]),
    'C24': dict(note=NOTE, parts=[seq('main', 'c24.cpp')]),
    'C27': dict(note=NOTE, parts=[seq('main', 'c27.cpp')]),
    'C29': dict(note=NOTE, parts=[seq('main', 'c29.cpp')]),
    'C28': dict(note=NOTE, parts=[seq('main', 'c28.cpp')]),
    'C21': dict(note=NOTE, parts=[seq('main', 'c21.cpp')]),
    'C22': dict(note=NOTE, parts=[seq('main', 'c22.cpp')]),
    'C23': dict(note=NOTE, parts=[seq('main', 'c23.cpp')]),
    'C26': dict(note=NOTE, parts=[mem('asan', 'c26.cpp'), dict(name='valgrind', harness='seq/c26.cpp', flavor='plain', memory=True, flags=['-g', '-DMC_MEMORY_ONLY', '-DMC_VALGRIND'], wrap=VALGRIND, hang=300)]
        + [mem('m%02d' % i, 'c%02d.cpp' % i, *(['-DMC_NO_LEAK'] if i == 25 else []), tier='quick', thorough_only=True) for i in (1,2,3,4,5,6,7,8,9,10,11,12,13,19,20,21,22,23,24,25,27,28,29)]),
    'C14': dict(note=CNOTE, technique=CTECH, meaning=CMEAN, assumptions=CASSUME, parts=[conc('main', 'c14.cpp')]),
    'C15': dict(note=CNOTE, technique=CTECH, meaning=CMEAN, assumptions=CASSUME, parts=[conc('main', 'c15.cpp')]),
    'C17': dict(note=CNOTE, technique=CTECH, meaning=CMEAN, assumptions=CASSUME, parts=[seq('histories', 'c17.cpp'), conc('schedules', 'c17.cpp')]),
    'C18': dict(note=CNOTE, technique=CTECH, meaning=CMEAN, assumptions=CASSUME, parts=[conc('main', 'c18.cpp')]),
    'C16': dict(note=CNOTE, technique=CTECH, meaning=CMEAN, assumptions=CASSUME, parts=[conc('main', 'c16.cpp')]),
    'C30': dict(note=NOTE, quick_budget=420, parts=[dict(seq('r%02d' % i, 'c%02d.cpp' % i), flavor='release', **(dict(tier='quick', thorough_only=True) if i in (10, 11) else {})) for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 10, 11)]
        + [dict(conc('s%02d' % i, 'c%02d.cpp' % i), flavor='sched-release', tier='quick', thorough_only=True) for i in (14, 15, 16, 17, 18)]),
    'C25': dict(note=NOTE, parts=[seq('main', 'c25.cpp')]),
}
