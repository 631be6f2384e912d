import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=None)))
V='pyrsistent/_pvector.py'; C='pvectorcmodule.c'; M='pyrsistent/_pmap.py'; S='pyrsistent/_pset.py'; B='pyrsistent/_pbag.py'; L='pyrsistent/_plist.py'; D='pyrsistent/_pdeque.py'; CT='pyrsistent/_checked_types.py'; F='pyrsistent/_field_common.py'; R='pyrsistent/_precord.py'; K='pyrsistent/_pclass.py'; T='pyrsistent/_transformations.py'; H='pyrsistent/_helpers.py'; Z='pyrsistent/_toolz.py'
p('C01','A persistent value never changes once it has been handed out',
 'Once any operation has returned a persistent value (vector, map, set, bag, list, deque, checked collection, record or class instance), everything observable about that value (length, elements, order, lookups, equality, hash, representation, its views and any iterator already started on it) stays the same for as long as it is referenced. This holds whatever any thread does afterwards with that value or with values and evolvers derived from it, in whatever interleaving, and whether those later operations succeed, raise or are interrupted.',
 ['schedules','histories','fault_sequences','configurations'],'every interleaving of any number of threads deriving new values from shared ones, every prefix of operations, every failing callback or asynchronous interrupt inside a later operation, both vector implementations',
 'Tests check that one operation leaves one receiver alone; aliasing of shared tree nodes, bucket lists and evolver buffers shows only for particular derivation histories (node boundaries, evolver reuse after persistent(), a failed update half way).',
 [V,C,M,S,B,L,D,CT,R,K],[('path copying / structural sharing','pyrsistent/_pvector.py PythonPVector; pvectorcmodule.c doSet/pushTail'),('dirty-node ownership in evolvers','pyrsistent/_pvector.py Evolver; pvectorcmodule.c doSetWithDirty'),('bucket replacement instead of mutation','pyrsistent/_pmap.py _Evolver.set/remove')],
 [('nodes shared between versions','never written after publication','pvectorcmodule.c VNode, _pvector.py _root/_tail')],['public API of every collection'])
p('C02','Vector operations behave like list operations on a copy',
 'For any vectors shared between any number of threads under any interleaving, every vector operation (construction, indexing and slicing, append, extend, set, mset, delete, remove, concatenation, repetition, index, count, iteration, comparison and conversion) returns exactly what the corresponding list operation would give on a copy of the receiver, with the very same element objects, or raises the corresponding error. The C implementation and the pure Python implementation agree.',
 ['schedules','histories','inputs','configurations'],'every thread interleaving and derivation history, every size including those where the tree gains a level, every index, slice and argument, both implementations',
 'Tests sample a handful of sizes and single-threaded call sequences; wrong node arithmetic appears only at particular size/position combinations reached through particular histories.',
 [V,C],[('radix tree with tail','pyrsistent/_pvector.py; pvectorcmodule.c nodeFor, pushTail, newPath, extendWithItem')],(),['pvector(), PVector methods and operators'])
p('C03','Map operations behave like dict operations on a copy',
 'For any maps shared between any number of threads under any interleaving, every map operation (construction from any mapping or pairs with any initial sizing, set, remove, discard, update, update_with, merging operators, lookup, attribute access, get, containment, length, keys, values, items, iteration and comparison) gives exactly what a dict holding the same entries would give, or raises the corresponding error. This holds for keys with arbitrary hash collisions and across every internal resize.',
 ['schedules','histories','inputs','configurations'],'every interleaving, derivation history and key set, including fully colliding hashes, falsy and mixed-type equal keys, and sizes around every resize',
 'Tests use well-distributed small keys; bucket collisions, replacement in a multi-entry bucket and resizes combined with removals depend on specific hash values and histories.',
 [M],[('hash buckets in a pvector with doubling reallocation','pyrsistent/_pmap.py _Evolver.set/_reallocate/remove, _turbo_mapping')],[('_size','number of entries','pyrsistent/_pmap.py')],['pmap(), m(), PMap methods'])
p('C04','Set and bag operations behave like set and multiset operations on a copy',
 'For any persistent sets and bags shared between any number of threads under any interleaving, every operation (construction, add, update, remove, discard, membership, counts, length, iteration, union, intersection, difference, symmetric difference, sum, subset/superset/disjointness tests and comparison, also against plain Python sets) gives exactly what a set or multiset with the same elements would give, or raises the corresponding error.',
 ['schedules','histories','inputs','configurations'],'every interleaving, history and element population, including colliding hashes and elements that are equal but of different types',
 'Tests cover single calls on small sets of ints; multiplicity bookkeeping and operators over colliding elements depend on the history.',
 [S,B,M],[('set over map','pyrsistent/_pset.py'),('counts map','pyrsistent/_pbag.py')],(),['pset(), s(), pbag(), b()'])
p('C05','Linked list and deque operations behave like list and deque operations on a copy',
 'For any persistent lists and deques shared between any number of threads under any interleaving, every operation (construction, cons, reverse, split, remove, append and pop on either side with counts, extend on either side, rotate, indexing, slicing, index, count, length, iteration, comparison) gives exactly what the corresponding list or deque operation would give, or raises the corresponding error. A deque created with a maximum length never exceeds it, discards from the opposite end, and every deque derived from it keeps that maximum.',
 ['schedules','histories','inputs'],'every interleaving and history, every distribution of the elements over the two halves of a deque, every count and index including out-of-range and negative ones, every maxlen including 0',
 'Internal balance of a deque depends on the whole history of pushes and pops from both ends; tests only use freshly constructed deques.',
 [L,D],[('two-list deque','pyrsistent/_pdeque.py _pop_lists/_append/_extend'),('cons cells','pyrsistent/_plist.py')],[('_length','redundant cached length','pyrsistent/_pdeque.py')],['plist(), l(), pdeque(), dq()'])
p('C06','Evolvers are isolated and lose or leak no update',
 'An evolver always reflects the value it was created from plus exactly the updates made through it, in order; persistent() returns a value with exactly that content as often as it is called, and the evolver stays usable afterwards. No update through an evolver is visible in its source value, in values it produced earlier, or in any other evolver, whatever the interleaving of threads each using their own evolver; and persistent() on an evolver without updates returns the source value itself.',
 ['schedules','histories','configurations'],'every sequence of updates, reads and persistent() calls on any number of evolvers over shared values (vector, map, set, checked collections, records, classes), every interleaving, both vector implementations',
 'Ownership of nodes alternates between evolver and persistent values at every persistent() call; errors need repeated persistent() calls, several evolvers over one source, or deletes after appends, which tests touch once each.',
 [V,C,M,S,CT,R,K],[('dirty-node sets / dirty bits','pyrsistent/_pvector.py Evolver; pvectorcmodule.c DIRTY_BIT, cleanVector'),('original replaced on persistent()','pyrsistent/_pmap.py, _pset.py, _checked_types.py evolvers')],(),['evolver() of every type that has one'])
p('C07','A failing or interrupted operation changes nothing and reports the real cause',
 'When user code invoked by an operation (hashing, equality, iteration, update, transformation, predicate, factory or invariant functions) raises an exception of its own, or the thread is interrupted at an arbitrary point, that very exception reaches the caller and every existing persistent value is exactly as before, including values the failing operation was given as receiver or argument. Repeating the operation once the fault is gone gives the result it would have given without the fault.',
 ['fault_sequences','schedules','histories'],'every operation, every position of the failing callback or interrupt within it, every interleaving with other threads, both vector implementations',
 'Tests do not inject failures inside callbacks; partial updates are visible only if the failure hits between two internal steps.',
 [V,C,M,S,B,L,D,CT,R,K,T],[('build new value aside, publish at the end','all collections'),('error paths in C','pvectorcmodule.c PVector_extend, internalIndex, mset')],(),['every public operation'])
p('C08','Updates acknowledged by an evolver survive a later failing update',
 'If an update through an evolver raises (because user code it invokes fails, because of an invalid index or missing key, or because a checked type rejects the value), then the evolver still contains every update that was acknowledged before and persistent() returns them; the failing update itself has no effect, except that a failing bulk update may have applied a prefix of its items.',
 ['fault_sequences','histories'],'every update sequence, every failing update at every position, every point inside the failing update, maps at every fill level including during a resize',
 'Needs a failure inside a multi-step internal update (such as a resize) followed by further use of the same evolver.',
 [M,V,C,S,CT],[('resize builds aside','pyrsistent/_pmap.py _reallocate'),('append buffer','pvectorcmodule.c appendList, _pvector.py _extra_tail')],(),['evolvers of vector, map and set'])
p('C09','Contained objects stay alive and intact exactly as long as they are contained',
 'Every object held by a live persistent value, evolver or iterator stays alive and unmodified whatever other values are dropped, whenever garbage collection runs and whatever finalizers of dropped objects do. When the last collection (or in-progress operation, failed or not) holding an object is dropped, the object is released promptly, an unreferenced cycle through a collection that shares no structure with another one is reclaimed by the garbage collector, and no reference is ever released twice.',
 ['schedules','histories','fault_sequences','configurations'],'every history of derivations and drops, garbage collection at every step, finalizers that use the collections reentrantly, failures injected into operations, both vector implementations',
 'Reference counting errors in shared C nodes surface only after particular derive/drop/collect orders, usually as rare crashes; tests drop values in one order and never collect mid-way.',
 [C,V,M],[('node reference counts','pvectorcmodule.c releaseNode, copyNode, incRefs, cleanVector'),('GC traversal','pvectorcmodule.c PVector_traverse'),('iterator/evolver references','pvectorcmodule.c PVectorIter, PVectorEvolver')],[('VNode.refCount','owners of a node','pvectorcmodule.c'),('nodeCache','recycled nodes','pvectorcmodule.c')],['weak references, sys.getrefcount, gc.collect'])
p('C10','Equal values hash equal, however and wherever they were built',
 'Two values with the same contents compare equal, symmetrically and in every mixture of implementations and kinds that compare equal, and then have equal hashes, no matter by what history, in which thread or in what order they were built; values with different contents never compare equal. Equality and hash do not depend on whether, when, by how many threads or with how many failures a hash was computed earlier.',
 ['histories','schedules','fault_sequences','configurations'],'every pair of histories leading to equal contents, every interleaving of hash computations and comparisons on shared values, failing element hashes',
 'Needs two different histories to the same content and cached state computed in between; tests compare freshly built values.',
 [M,S,V,C,B,L,D,K,R],[('cached hash','pyrsistent/_pmap.py __hash__, _pset.py __hash__'),('content hash','pvectorcmodule.c PVector_hash, _pvector.py __hash__')],[('_cached_hash','lazily computed, read without locks','pyrsistent/_pmap.py')],['==, !=, hash(), use as dict keys'])
p('C11','No checked collection ever holds an element its declaration forbids',
 'No operation on checked vectors, sets or maps (construction from any source including other persistent collections, create, evolvers, updates, deletions, transformations, unpickling, copying), in any interleaving and with invariant functions that may fail at any call, ever yields an instance of the checked type containing an element, key or value of a forbidden type or violating a declared or inherited invariant. Rejected input raises the documented type or invariant error, and valid input is always accepted with its exact elements.',
 ['histories','inputs','schedules','fault_sequences','configurations'],'every construction path and operation, every declaration (types, optional, nested checked types, several and inherited invariants), every failing invariant call, both vector implementations',
 'Bypasses exist per construction path and source type; tests construct from lists mostly and in one configuration.',
 [CT,V,S,M],[('_check_types/_invariant_errors in evolvers','pyrsistent/_checked_types.py'),('already-checked fast path','pyrsistent/_checked_types.py __new__')],(),['CheckedPVector, CheckedPSet, CheckedPMap'])
p('C12','No record or class instance ever violates its declaration; updates are atomic',
 'No instance of a record or class type ever exists, by whatever operation, interleaving or failure (construction, create, set of several fields at once, update, evolver, remove, transform, unpickling, copying), with a missing mandatory field, an unknown field, a field of a wrong type or a violated field or global invariant; invalid input raises the documented error and valid input is accepted. A multi-field update is all or nothing, initial values fill exactly the fields not given, factories apply to exactly the fields being set, and instances reject direct mutation.',
 ['histories','inputs','schedules','fault_sequences'],'every declaration, update sequence, and failing factory/invariant call, every interleaving',
 'Depends on combinations of field options and on failures between two field updates.',
 [R,K,F],[('evolver collects errors and checks at persistent()','pyrsistent/_precord.py _PRecordEvolver'),('_check_and_set_attr, frozen flag','pyrsistent/_pclass.py')],(),['PRecord, PClass'])
p('C13','Values survive pickling, crash and restart, and copying',
 'A value serialised before a crash and restored after a restart, in a process with a different hash secret, is equal to the original with the same type, contents, order and maximum length, is fully functional (lookups of restored keys succeed, updates work) and, for checked types, still satisfies its declaration; a torn or truncated stored image raises instead of yielding a wrong value. copy and deepcopy likewise give equal values that are as independent of the original as for the builtin counterparts, and serialising never changes the original.',
 ['crash_points','histories','configurations','fault_sequences'],'every value history, every crash point of the writer, every change of hash secret between writer and reader, every pickle protocol, nested values',
 'Tests pickle and unpickle in one process with one hash seed, so stale hashes and bucket positions can never show.',
 [C,V,M,S,B,L,D,CT,R,K,F],[('__reduce__ of every type','all modules'),('field type registries','pyrsistent/_field_common.py _restore_*')],(),['pickle, copy'])
p('C14','Transformations change exactly the matched elements',
 'transform() applies its commands in order to exactly the elements its path expressions match (keys, callables, patterns, creation of missing levels, removal with discard) and returns a structure equal to the one obtained by doing the same on nested plain Python data; everything not matched is the very same object as before, and the original itself is returned when nothing changes. This holds under any interleaving, and when a user function fails mid-way nothing has changed.',
 ['inputs','histories','schedules','fault_sequences'],'every nested structure of vectors, maps, records and classes, every path and command list, every failing predicate or update function, every interleaving',
 'Tests transform a few fixed documents.',
 [T,M,V,C,R,K],[('recursive path update','pyrsistent/_transformations.py')],(),['transform() of PVector, PMap, PRecord, PClass'])
p('C15','No mutable input or output is aliased',
 'Mutating, at any later point and from any thread, a list, dict, set or other mutable source a value was built from or frozen from, or any mutable result obtained from it (tolist, thaw, serialize, conversions), never affects the value; freeze and thaw convert nested data completely, in both directions, without modifying their argument, and functions decorated with mutant receive frozen arguments and return frozen results.',
 ['schedules','histories','inputs'],'every nested input, every moment and interleaving of later mutations of sources and results, including mutation between two operations of another thread',
 'Aliasing shows only when the source is mutated after the fact, which tests rarely do.',
 [H,V,C,M,S,B,L,D,CT,R,K],[('copying constructors','all factories'),('freeze/thaw/mutant','pyrsistent/_helpers.py')],(),['factories, freeze, thaw, mutant, serialize, tolist'])
p('C16','Running out of memory in the C vector is a clean, harmless error',
 'If any memory allocation made during an operation of the C vector, its iterator or its evolver fails, the operation either still succeeds with the right result or raises MemoryError; it never crashes, corrupts or leaks, every existing vector is unchanged, an evolver keeps its acknowledged updates, and repeating the operation once memory is available succeeds.',
 ['fault_sequences','histories'],'every operation on every vector shape, and every single allocation inside it failing (and every later one too)',
 'Tests never make allocations fail.',
 [C],[('NULL propagation and cleanup','pvectorcmodule.c allocNode, newPvec, pushTail, newPath, doSet, doSetWithDirty, extendWithItem, realizeEvolver')],(),['pvectorc through an instrumented allocator'])
p('C17','Generated field collection types do not depend on declaration order or races',
 'Collection fields declared with the same specification, in any number of classes and threads and in any interleaving of the declarations, accept the same values, can exchange values with each other and survive pickling; each field enforces exactly the item types and item invariants it was declared with, independently of what other declarations exist or came first.',
 ['schedules','histories','inputs'],'every set of declarations and every interleaving of concurrent declarations at instruction granularity',
 'Tests declare classes in one thread in one order.',
 [F],[('global registries of generated types','pyrsistent/_field_common.py _seq_field_types, _pmap_field_types')],[('registry','one generated type per declaration','pyrsistent/_field_common.py')],['pvector_field, pset_field, pmap_field'])
# not applicable
p('C18','Pure helpers return the documented result',
 'get_in returns the value found along a path or the default (raising only when asked to), pattern matchers used as plain functions match what they document, and immutable() generates named-tuple classes whose set() replaces exactly the given members and rejects unknown ones.',
 ['inputs'],'every argument','Tests sample arguments.',
 [Z,'pyrsistent/_immutable.py',T],[('pure functions','pyrsistent/_toolz.py get_in, pyrsistent/_immutable.py')],(),['get_in, rex, ny, immutable'])
p('C19','Operations keep their asymptotic cost through structural sharing',
 'Updating one element of a persistent vector or map of n elements costs and retains memory proportional to log n, not n, through sharing of structure with the original, for every history.',
 ['histories','inputs'],'every history and size','Tests do not measure cost.',
 [V,C,M],[('structural sharing','pyrsistent/_pvector.py, pvectorcmodule.c')],(),['time and memory'])
p('C20','Type annotations agree with run-time behaviour',
 'Every program accepted by a type checker against the shipped type stubs uses only operations and signatures that exist at run time with the declared result types.',
 ['programs'],'every client program','Stubs are only compiled, not related to the implementation.',
 ['pyrsistent/__init__.pyi','pyrsistent/typing.pyi','pyrsistent/typing.py'],[('stub files','pyrsistent/*.pyi')],(),['type checkers'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
