"""Static facts about the checks: implementations run, budgets, what is real and what is a stub."""
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_ALL = {
    'C01': ('c', 'py'), 'C02': ('c', 'py', 'c', 'cdbg'), 'C03': ('c', 'c', 'py'), 'C04': ('c', 'c', 'py'), 'C05': ('py', 'c'),
    'C06': ('c', 'py'), 'C07': ('c', 'py'), 'C08': ('c', 'py'), 'C09': ('c', 'cdbg', 'py'), 'C10': ('c', 'py'),
    'C11': ('c', 'py'), 'C12': ('c', 'py'), 'C13': ('c', 'py'), 'C14': ('c', 'py'), 'C15': ('c', 'py'),
    'C16': ('c', 'cdbg'), 'C17': ('c', 'py'),
}
NOT_READY = ()
FLAVORS = {k: v for k, v in _ALL.items() if k not in NOT_READY}
RUNS = {'C01': 3500, 'C02': 6500, 'C05': 9000, 'C06': 4500, 'C08': 5500, 'C09': 10000, 'C10': 4000, 'C11': 4500, 'C12': 4000, 'C14': 6500,
        'C15': 4500, 'C16': 3500, 'C17': 7500}
BUDGET = {p: {'quick_runs': RUNS.get(p, 3000), 'quick_wall': 100} for p in FLAVORS}

FAULT_KEYS = ('callback_fault', 'interrupt', 'gc', 'nomem', 'crash', 'torn', 'truncated', 'flipped', 'restart', 'finalizer', 'mutation')

REAL = ['pyrsistent (all Python modules of /repo)', 'pvectorc built from /repo (flavors c, cdbg)', 'CPython interpreter, allocator and garbage collector']
STUB = ['user code called by the library (keys, elements, iterables, functions, invariants): simulated objects that can yield or fail at every call',
        'thread scheduler: real threads, one runnable at a time, switched by the simulator']
ASSUME = ['the library reaches user code only through the instrumented objects of the run',
          'preemption between any two bytecode instructions of library code models the GIL interpreter; C code runs atomically between calls into Python']
TECH = {
    'C01': 'seeded interleavings of threads deriving from shared values, with failing callbacks and interrupts; fingerprint of every value handed out re-checked after later steps',
    'C02': 'seeded interleavings of vector operations, refinement against list',
    'C03': 'seeded interleavings of map operations with chosen hash collisions, refinement against dict',
    'C04': 'seeded interleavings of set and bag operations with chosen hash collisions, refinement against set and multiset models',
    'C05': 'seeded interleavings of list and deque operations, refinement against list and collections.deque',
    'C06': 'seeded histories of several evolvers per shared source across threads, refinement against mutable models',
    'C07': 'callback failures and interrupts injected at seeded positions of every operation; atomicity and retry checked against the models',
    'C08': 'failures injected into evolver updates at seeded positions; acknowledged updates checked against mutable models',
    'C09': 'seeded histories of derivations, drops, collections and reentrant finalizers with injected failures; object lifetimes checked by weak references',
    'C10': 'seeded pairs of histories to equal and unequal contents with interleaved and failing hash computations',
    'C11': 'seeded histories over checked collections with failing invariants; every instance reached is validated against its declaration',
    'C12': 'seeded histories over records and classes with failing factories and invariants; every instance reached is validated against its declaration',
    'C13': 'simulated crash and restart with another hash secret, torn and truncated images, both implementations on either side',
    'C14': 'seeded interleavings of transformations with failing user functions, refinement against nested plain data',
    'C15': 'seeded mutation of sources and results between the steps of other threads; values checked against plain snapshots',
    'C16': 'every allocation of an operation made to fail in turn through the interpreter allocator hooks, over seeded histories of vectors',
    'C17': 'seeded instruction-level interleavings of concurrent field declarations, exchange of values checked afterwards',
}
NOTE = ('Seeded search, not exhaustive: a violation needs a plan, schedule and fault sequence that the seeds reach. Each report is reproduced in a '
        'fresh process, minimised and replayable. ')
PROPS = {p: {'level': 'exploration', 'real': REAL, 'stub': STUB, 'assumptions': ASSUME, 'technique': TECH[p],
             'note': NOTE + 'Assumes: ' + '; '.join(ASSUME) + '.'} for p in FLAVORS}


def _known():
    sigs, text = {}, {}
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if not line.startswith('known: '):
                continue
            f = line.split(None, 3)
            prop, sig = f[1].split('=')[1], f[2].split('=', 1)[1]
            sigs.setdefault(prop, []).append(sig)
            text[sig] = f[3].strip()
    return sigs, text


KNOWN_SIGS, KNOWN_TEXT = _known()
