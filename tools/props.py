"""The property tables properties.jsonl and MANIFEST.json are generated from."""

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=False):
    a = {'files': ['include/co_ecs/' + f for f in files],
         'mechanism': [{'name': n, 'where': 'include/co_ecs/' + w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': 'include/co_ecs/' + w} for n, m, w in state]
    a['observe_at'] = list(observe)
    a['hook_needed'] = hook or None
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}


PROPS = [
 P('C01', 'A destroyed entity is never reachable through an old handle',
   'Once an entity has been destroyed, its handle is never again reported alive and every operation through it fails with the entity-not-found error, even after its slot has been reused by later entities. A handle of a live entity is always accepted.',
   ['histories', 'inputs'], 'every history of create, reserve, destroy and flush operations, and every handle obtained from it',
   'The tests destroy and recreate a handful of entities; that a reused slot is told apart from its predecessor, and that every entry point checks liveness before it touches storage, must hold for every history and every entry point.',
   ['detail/handle.hpp', 'base_registry.hpp', 'entity_ref.hpp'],
   [('handle_pool::recycle', 'detail/handle.hpp'), ('handle_pool::alive', 'detail/handle.hpp'), ('base_registry::ensure_alive', 'base_registry.hpp')],
   [('generation table', 'the current generation of every slot', 'detail/handle.hpp')],
   ['registry::alive', 'entity_ref accessors']),
 P('C02', 'Live and reserved entity handles are pairwise distinct',
   'Every handle handed out by creating or reserving an entity differs from every handle that is live or still reserved at that moment, including handles reserved concurrently by several threads. A destroyed slot is handed out at most once per destruction.',
   ['histories', 'schedules'], 'every interleaving of creations, concurrent reservations, destructions and flushes',
   'Tests reserve a few handles from a few threads once; distinctness depends on the order in which free slots, reservations and flushes interleave.',
   ['detail/handle.hpp'],
   [('handle_pool::create', 'detail/handle.hpp'), ('handle_pool::reserve', 'detail/handle.hpp'), ('handle_pool::flush', 'detail/handle.hpp')],
   [('free list and cursor', 'which free slots are available and which are reserved', 'detail/handle.hpp')],
   ['registry::create', 'registry::reserve']),
 P('C03', 'Every live entity maps to exactly the row that holds it',
   'After every operation, successful or failed, each live entity is recorded at exactly one storage location, and that location holds that entity; no other entity is recorded there. Operations on one entity never change which data another entity sees.',
   ['histories', 'inputs', 'fault_sequences'], 'every sequence of create, set, remove, copy, move, clone and destroy operations, with a component constructor or assignment failing at any point',
   'Tests check a few entities after a few operations; whether the entity that is relocated into a freed row is re-recorded depends on which row, chunk and archetype is involved.',
   ['base_registry.hpp', 'archetype.hpp', 'chunk.hpp'],
   [('base_registry::set_location', 'base_registry.hpp'), ('archetype::swap_erase', 'archetype.hpp'), ('chunk::swap_erase', 'chunk.hpp'), ('archetype::move', 'archetype.hpp')],
   [('entity location map', 'entity id to archetype, chunk and row', 'base_registry.hpp')],
   ['entity_ref::get', 'registry::alive']),
 P('C04', 'Storage stays densely packed',
   'Within each archetype all storage chunks but the last non-empty one are full, rows within a chunk are contiguous, no row beyond the capacity of a chunk is used, and removing an entity fills its row with the last one. A chunk is only discarded when it is empty.',
   ['histories', 'inputs'], 'every sequence of insertions, removals and moves between archetypes',
   'Chunks hold thousands of rows; the tests do not cross chunk boundaries in most operations, and removal from a chunk that is not the last one is a special case.',
   ['archetype.hpp', 'chunk.hpp'],
   [('archetype::emplace_back', 'archetype.hpp'), ('archetype::swap_erase', 'archetype.hpp'), ('archetype::ensure_free_space', 'archetype.hpp')],
   [('chunk size', 'number of rows in use', 'chunk.hpp')],
   ['view iteration', 'registry::size']),
 P('C05', 'Every component is constructed once and destroyed once',
   'Every component value stored in a registry is constructed exactly once before it is used and destroyed exactly once, whatever sequence of operations is applied and whichever constructor or assignment throws on the way. No storage slot is read, assigned or destroyed while it holds no component, and none is constructed over a live one.',
   ['histories', 'inputs', 'fault_sequences'], 'every sequence of operations including destruction of the registry, with an exception thrown by any user operation on a component',
   'Tests count constructions for a few successful operations only; leaks and double destruction hide on exceptional paths and chunk boundaries.',
   ['chunk.hpp', 'archetype.hpp', 'base_registry.hpp', 'type_meta.hpp'],
   [('chunk::emplace_back', 'chunk.hpp'), ('chunk::move', 'chunk.hpp'), ('chunk::copy', 'chunk.hpp'), ('chunk::swap_erase', 'chunk.hpp'), ('chunk destructor', 'chunk.hpp')],
   [], ['component constructors and destructors']),
 P('C06', 'A failed operation leaves the registry as it was',
   'If creating, setting, copying, moving or cloning fails because a component constructor or assignment throws or the operation is refused, then the entities, their components and their handles are those from before the call. No half-built entity remains visible and no handle is consumed.',
   ['inputs', 'fault_sequences', 'histories'], 'every operation and every user operation inside it that can throw',
   'The tests have no throwing constructors in most operations; each throwing site is its own path.',
   ['base_registry.hpp', 'archetype.hpp', 'chunk.hpp'],
   [('base_registry::create_impl', 'base_registry.hpp'), ('base_registry::set_impl', 'base_registry.hpp'), ('base_registry::copy_entity', 'base_registry.hpp')],
   [], ['registry state after an exception']),
 P('C07', 'Misuse is reported by the documented errors, never by termination',
   'Accessing a dead entity raises entity-not-found and accessing a component an entity lacks raises component-not-found, at every access function of the interface, before any storage is touched. No documented error and no exception of user code terminates the program because it meets a function that promises not to throw.',
   ['inputs', 'programs'], 'every access function, every handle and every component type, whatever its constructors may throw',
   'Termination through a wrong exception specification only shows when the failing path is taken inside exactly that function; tests exercise a few such paths.',
   ['base_registry.hpp', 'entity_ref.hpp', 'exceptions.hpp', 'archetype.hpp', 'chunk.hpp'],
   [('base_registry::ensure_alive', 'base_registry.hpp'), ('base_registry::get_location', 'base_registry.hpp'), ('chunk::ptr_const', 'chunk.hpp')],
   [], ['entity_ref::get', 'entity_ref::has', 'entity_ref::visit']),
 P('C08', 'Constness and component requirements are enforced at compile time',
   'Code that only has read access to a registry, view, entity or component cannot obtain a mutable reference to a stored component, and a query yields mutable references only for components it asked for as mutable. Component types that cannot be stored safely, and systems whose parameters are not recognised, are rejected when compiling.',
   ['programs'], 'every program that compiles against the library',
   'A test cannot show that a program must not compile, and covers only the argument lists it instantiates.',
   ['entity_ref.hpp', 'view.hpp', 'view_arguments.hpp', 'component.hpp', 'system/system.hpp'],
   [('const_entity_ref', 'entity_ref.hpp'), ('component_reference', 'component.hpp'), ('system argument traits', 'system/system.hpp')],
   [], ['types of returned references']),
 P('C09', 'Every access of a system argument is declared',
   'For every kind of parameter a system may take, the access the scheduler is told about covers every component, resource or registry access the parameter allows the system to perform: mutable access is declared as write and shared access as read. A parameter that gives access to everything is declared as such.',
   ['programs', 'schedules'], 'every list of system parameters',
   'Tests check the declaration for a few parameter lists; a missing declaration only shows as a data race in a schedule that happens to overlap.',
   ['system/system.hpp', 'system/access.hpp', 'view.hpp'],
   [('system_argument_state', 'system/system.hpp'), ('access_pattern', 'system/access.hpp')],
   [], ['access_pattern of a system']),
 P('C10', 'Conflicting systems never run at the same time',
   'Two systems that may run in parallel never conflict: neither writes a component type the other reads or writes, and a system with access to the whole registry runs with no other that touches it. Systems that must run on the main thread run on the thread that runs the schedule.',
   ['schedules', 'inputs', 'programs'], 'every set of systems, every order of registration and every interleaving',
   'The tests build a few stages; the conflict decision is a symmetric relation over all pairs of access patterns and the batches depend on registration order.',
   ['system/access.hpp', 'system/stage.hpp', 'system/system.hpp'],
   [('access_pattern::allows', 'system/access.hpp'), ('stage executor batching', 'system/stage.hpp')],
   [], ['systems run in one batch']),
 P('C11', 'Stages run in order, every system exactly once, with a join in between',
   'Each run of a schedule executes every system of every stage exactly once, a stage starts only after every system of the stage before it has finished, and initialisation systems run once before all of them. Commands recorded during the stages are applied only when no system is running.',
   ['schedules', 'programs'], 'every schedule and every interleaving of worker threads',
   'Tests observe a few runs on a few threads; a missing join is only seen when the timing is unlucky.',
   ['system/stage.hpp', 'system/schedule.hpp', 'thread_pool/task.hpp', 'thread_pool/thread_pool.hpp', 'thread_pool/parallel_for.hpp'],
   [('stage_executor::run', 'system/stage.hpp'), ('schedule_executor::run_once', 'system/schedule.hpp'), ('task completion', 'thread_pool/task.hpp')],
   [('unfinished job counter', 'a task and its children still to finish', 'thread_pool/task.hpp')],
   ['order of system executions']),
 P('C12', 'Work-stealing queue accesses are ordered',
   'The owner of a task queue and the threads that steal from it synchronise so that a task pointer is visible before it can be stolen, the last element is taken by only one side, and a queue array is never used before it is initialised or after it is freed.',
   ['schedules'], 'every interleaving of one owner and any number of thieves under the C++ memory model',
   'Tests run on strongly ordered hardware and cannot reach the weak-memory reorderings the ordering constraints exclude.',
   ['detail/work_stealing_queue.hpp'],
   [('push', 'detail/work_stealing_queue.hpp'), ('pop', 'detail/work_stealing_queue.hpp'), ('steal', 'detail/work_stealing_queue.hpp')],
   [('top and bottom indices', 'the range of queued tasks', 'detail/work_stealing_queue.hpp')],
   ['tasks executed']),
 P('C13', 'Commands can be recorded from any thread safely',
   'Each thread records structural commands into storage of its own, sharing with other threads only state that is synchronised, and what a thread recorded survives until it is applied even when that thread ends first.',
   ['schedules'], 'every set of threads that record commands at the same time',
   'Tests record from a few threads; a race or a lifetime error depends on timing.',
   ['command.hpp', 'detail/handle.hpp', 'base_registry.hpp'],
   [('command_buffer::get', 'command.hpp'), ('command_buffer::flush', 'command.hpp')],
   [], ['commands applied at flush']),
 P('C14', 'Recorded commands are applied once, in order, with their effect',
   'Applying recorded commands performs each of them exactly once in the order the thread recorded it, with the same effect as the direct operation; staged component values are handed over or destroyed exactly once. After that nothing recorded is left, and a second application does nothing.',
   ['histories', 'inputs'], 'every sequence of recorded commands, of every kind, and every number of applications',
   'Tests record a few commands of some kinds; ownership of staged values and order hold for every sequence.',
   ['command.hpp', 'base_registry.hpp', 'detail/allocator/stack_allocator.hpp'],
   [('command_buffer::flush', 'command.hpp'), ('command_writer', 'command.hpp')],
   [], ['registry after flush']),
 P('C15', 'Component arrays are aligned, disjoint and inside their chunk',
   'For every set of component types, each component array lies inside the chunk it belongs to, at an address suitable for the type, disjoint from all other arrays and with room for every row the chunk may hold. A set that does not fit is refused with the documented error instead of overflowing.',
   ['inputs', 'programs'], 'every set of component types of any size and alignment',
   'Tests use a few small component types; overlap and misalignment depend on sizes and alignments that are not sampled.',
   ['archetype.hpp', 'chunk.hpp', 'type_meta.hpp'],
   [('archetype block layout', 'archetype.hpp'), ('chunk address computation', 'chunk.hpp')],
   [('blocks', 'offset of each component array in a chunk', 'archetype.hpp')],
   ['addresses of components']),
 P('C16', 'Hash table slots, metadata and element lifetimes agree',
   'In the hash table every occupied slot holds exactly one live element and every free slot none, through insertion, displacement, erasure, growth, copying, moving, clearing and destruction. Its element count equals the number of occupied slots, and its bucket count stays a power of two matching its metadata.',
   ['histories', 'inputs'], 'every sequence of hash table operations on any element type',
   'Tests insert and erase small integers; a leaked or doubly destroyed element in a displacement chain is invisible to them.',
   ['detail/hash_table.hpp', 'detail/hash_map.hpp'],
   [('hash_table::emplace_impl', 'detail/hash_table.hpp'), ('hash_table::erase_impl', 'detail/hash_table.hpp'), ('hash_table::rehash', 'detail/hash_table.hpp')],
   [('bucket metadata', 'probe distances and occupancy', 'detail/hash_table.hpp')],
   ['element constructors and destructors']),
 P('C17', 'Sparse map index and dense storage stay in step',
   'In the sparse map every key present refers to exactly one dense entry that carries that key, absent keys refer to none, and erasing moves the last entry into the hole and redirects its key. Stale index content is never mistaken for a present key.',
   ['histories', 'inputs'], 'every sequence of insertions, lookups and erasures of keys',
   'Tests use short sequences; a dangling redirection needs an erase of a particular position followed by a particular lookup.',
   ['detail/sparse_table.hpp', 'detail/sparse_map.hpp'],
   [('sparse_table::emplace', 'detail/sparse_table.hpp'), ('sparse_table::erase', 'detail/sparse_table.hpp'), ('sparse_table::find', 'detail/sparse_table.hpp')],
   [], ['lookup results']),
 P('C18', 'Component sets are compared and hashed by their members',
   'Two sets with the same members compare equal and have the same hash whatever order and history they were built with, and sets with different members never compare equal. Membership follows exactly the insertions and erasures made.',
   ['inputs', 'histories'], 'every sequence of insertions and erasures of component IDs of any size',
   'Tests use low IDs within one storage word; sets that grew to different capacities with equal members are not sampled.',
   ['detail/dynamic_bitset.hpp', 'component.hpp'],
   [('dynamic_bitset equality and hash', 'detail/dynamic_bitset.hpp'), ('component_set', 'component.hpp')],
   [], ['archetype lookup']),
 P('C19', 'Arena allocators hand out aligned, in-bounds, disjoint memory',
   'Memory handed out by the arena allocators is aligned as requested, lies entirely inside the arena and does not overlap memory handed out before and not released; a request that does not fit is refused. Releasing the latest block gives back exactly its room. The accounting never wraps around.',
   ['inputs', 'histories'], 'every sequence of requests of any size and alignment',
   'Tests use a few sizes and alignments; overflow and misalignment depend on the values.',
   ['detail/allocator/stack_allocator.hpp', 'detail/allocator/linear_allocator.hpp', 'detail/allocator/temp_allocator.hpp'],
   [('allocate', 'detail/allocator/stack_allocator.hpp'), ('allocate', 'detail/allocator/linear_allocator.hpp')],
   [], ['addresses handed out']),
 P('C20', 'Copy, move and swap carry the whole state of a container',
   'Copying, moving or swapping any container of the library transfers every part of its state, leaves the source of a move in a valid state that no longer owns what was moved, and never lets two objects own the same storage. Self-assignment and self-swap change nothing.',
   ['histories', 'programs'], 'every container, every state it can be in, and every special member function',
   'Tests move a few containers once and look at the destination only.',
   ['detail/hash_table.hpp', 'detail/sparse_table.hpp', 'detail/dynamic_bitset.hpp', 'detail/allocator/stack_allocator.hpp', 'detail/allocator/linear_allocator.hpp', 'chunk.hpp', 'archetype.hpp'],
   [('special member functions', 'detail/hash_table.hpp'), ('special member functions', 'chunk.hpp'), ('special member functions', 'detail/allocator/stack_allocator.hpp')],
   [], ['state of both objects afterwards']),
 P('C21', 'Views visit exactly the matching entities, once each',
   'Iterating a view, sequentially or in parallel, visits every entity that has all requested components, exactly once, and no other entity, each with its own components. A parallel iteration has finished on every chunk when it returns.',
   ['inputs', 'histories', 'schedules'], 'every registry content and every list of requested components',
   'Tests iterate over small registries that fit in one chunk.',
   ['view.hpp', 'view_arguments.hpp', 'chunk.hpp', 'archetype.hpp', 'thread_pool/parallel_for.hpp'],
   [('basic_view::each', 'view.hpp'), ('basic_view::par_each', 'view.hpp'), ('chunk_view', 'chunk.hpp')],
   [], ['entities visited']),
 P('C22', 'A component type has one ID in every binary of a program',
   'Component types have pairwise distinct IDs, and the same type has the same ID in the host program and every shared library of the process, whatever the symbol visibility settings. An ID never changes once assigned.',
   ['programs', 'configurations'], 'every set of component types and every combination of host and client binaries and visibility settings',
   'Tests link one executable; identity across binaries needs a different build configuration.',
   ['component.hpp', 'detail/type_traits.hpp', 'detail/macro.hpp'],
   [('type registry', 'component.hpp'), ('component_id', 'component.hpp'), ('API macros', 'detail/macro.hpp')],
   [], ['component_id::value']),
 P('C23', 'Type-erased component operations do what their name says',
   'For every component type, the type-erased operations the storage uses to move, copy and destroy components act on exactly the source and destination given, as that type, and the recorded size and alignment are those of that type.',
   ['inputs', 'programs'], 'every component type, trivially copyable or not, movable only, and throwing or not',
   'Tests use a few component types; swapped source and destination or a wrong operation shows for particular types only.',
   ['type_meta.hpp', 'component.hpp'],
   [('type_meta::of', 'type_meta.hpp'), ('component_meta::of', 'component.hpp')],
   [], ['components after relocation']),
 P('C24', 'Structural operations change exactly what was asked for',
   'After a successful operation an entity has exactly the component set the operation specifies: created with the given components, set adds or replaces one, remove drops one, copy and move reproduce the set, destroy leaves none. All other components of the entity keep their values and no other entity is affected.',
   ['histories', 'inputs'], 'every sequence of structural operations on entities with any component set',
   'Tests check a few component sets; the set computation and value transfer must hold for all of them.',
   ['base_registry.hpp', 'archetype.hpp', 'registry.hpp', 'entity_ref.hpp'],
   [('archetypes::ensure_archetype_added', 'archetype.hpp'), ('archetypes::ensure_archetype_removed', 'archetype.hpp'), ('base_registry::set_impl', 'base_registry.hpp')],
   [], ['entity_ref::has', 'entity_ref::get']),
 P('C25', 'References handed out stay valid while they may be used',
   'Internal references, pointers and iterators into growable storage are never used after an operation that may relocate that storage, and references the interface hands out to stages, systems and resources stay valid as long as documented.',
   ['programs', 'histories'], 'every sequence of operations between obtaining a reference and using it',
   'A dangling reference often still reads the old value in a test; only the path structure shows it.',
   ['archetype.hpp', 'base_registry.hpp', 'system/schedule.hpp', 'system/stage.hpp', 'command.hpp', 'detail/sparse_table.hpp'],
   [('archetype storage', 'archetype.hpp'), ('schedule::begin_stage', 'system/schedule.hpp'), ('command buffers', 'command.hpp')],
   [], ['references returned by the interface']),
 P('C30', 'The hash map returns the value last stored for a key',
   'For every history of insertions and erasures, looking up a key yields the value last stored for it, or nothing if it was erased since.',
   ['histories', 'inputs'], 'every history and every hash function',
   'Tests sample histories of integers.',
   ['detail/hash_table.hpp'], [('probing', 'detail/hash_table.hpp')], [], ['lookup results']),
 P('C31', 'Every submitted task is executed exactly once and every wait ends',
   'Whatever the interleaving of workers, each submitted task runs exactly once, and waiting for a task returns once it and its children have run.',
   ['schedules'], 'every interleaving of any number of workers',
   'Tests run a few schedules on one machine.',
   ['thread_pool/thread_pool.hpp', 'detail/work_stealing_queue.hpp'], [('worker loop', 'thread_pool/thread_pool.hpp')], [], ['task executions']),
 P('C32', 'Memory use stays proportional to the live entities',
   'Repeated creation and destruction of entities does not make memory use grow without bound.',
   ['histories'], 'every long-running history',
   'Tests are short.',
   ['archetype.hpp', 'detail/handle.hpp'], [('chunk release', 'archetype.hpp')], [], ['allocated memory']),
]

NOT_APPLICABLE = {
 'C16': 'Whether a slot is occupied is a run-time boolean next to it, and insertion and erasure walk probe sequences of unbounded length that displace elements; that flags, elements and count agree afterwards is an inductive invariant over the contents of the whole table, which the loop summaries used here cannot carry through swaps with arbitrary slots. Copying, moving and swapping of tables are decided under C20; the defects found by reading for C16 were repaired.',
 'C30': 'Functional correctness of Robin Hood probing for every hash function and history depends on run-time probe distances (an inductive invariant over the values of a table of unbounded size) that no static rule within reach bounds; its whole-state transfer is claimed under C20.',
 'C31': 'Exactly-once execution and termination under every interleaving is a liveness and linearizability statement about the Chase-Lev algorithm as a whole; static analysis reaches its ordering and join clauses, which are claimed under C11 and C12, not the statement itself.',
 'C32': 'A bound on memory over unbounded histories is a quantitative run-time property; the structural clause (an emptied chunk is released, a handle slot is reused) is part of C02 and C04.',
}

ENGINE = ('Path-sensitive abstract interpretation of the clang syntax tree: every public storage operation is inlined down to the type-erased component operations and '
          'evaluated over symbolic rows, chunks, archetypes, handles and component sets; user operations on a component may throw at every site where their type allows it; loops are summarised. '
          'It assumes the storage is consistent before the call (C03-C05 as induction hypothesis), trusts the transfer functions of the standard library in sa/models.py, decides for the component types of the drivers, and excludes running out of memory. A path whose end state is not understood is reported as undecided in the evidence and never raises an alarm.')
CLAIMS = {
 'C01': dict(technique='abstract interpretation of the handle pool over arbitrary pools with summarised loops (linear facts), monotonicity rule on generations; path rule over every storage operation', level='proof',
   note='From an arbitrary pool satisfying the pool invariant, on every exit of every pool operation: no generation is forgotten or lowered, only recycling a live handle advances one (its own), alive() accepts exactly the handles whose slot has their generation, handles given out carry the generation of their slot. On every path of every storage operation: success only if the pool said alive, entity_not_found otherwise, destroy and move recycle exactly the given handle. Wrap-around of the 32-bit generation is out of scope.'),
 'C02': dict(technique='inductive invariant of the handle pool checked by abstract interpretation with linear facts on every path; atomicity rule for reserve()', level='proof',
   note='The invariant max(c,0) <= F, N - G = max(0,-c) holds initially and is preserved on every exit of every operation; ids given out come from the unreserved part of the free list and leave it, or are new; an id is put back only right behind the unreserved ones. reserve() writes by single atomic read-modify-writes only and derives its id from their value, so concurrent reservations are equivalent to a sequence.'),
 'C03': dict(technique='path-sensitive abstract interpretation of all storage operations with a location-map end rule', level='other',
   note='Inductive step per path: the recorded location of every entity touched is the row that holds it at the end, and no row moved without its record. ' + ENGINE),
 'C04': dict(technique='path-sensitive abstract interpretation of all storage operations with a density end rule', level='other',
   note='Inductive step per path: chunk sizes stay within the capacity, only the last chunk of an archetype has free rows, chunks are dropped only when empty. ' + ENGINE),
 'C05': dict(technique='typestate of component slots over all paths of all storage operations', level='other',
   note='Every construct, assign, read and destroy event on every path, exceptional ones included, meets a slot in the right state, and the live slots at the end are exactly the rows in use. ' + ENGINE),
 'C06': dict(technique='path-sensitive abstract interpretation with an exceptional-exit rule (strong guarantee)', level='other',
   note='On every path that leaves an operation by an exception of user code or a documented error, the rows, chunk sizes, locations and handles are those of the start. ' + ENGINE),
 'C07': dict(technique='exception-escape analysis through noexcept functions and misuse-path analysis of every access function', level='other',
   note='For every access function, the paths on which the handle is dead (or without location) or the component is missing end in the documented error before storage is touched, and no exception meets a noexcept boundary. ' + ENGINE),
 'C24': dict(technique='symbolic component-set algebra over all successful paths of the storage operations', level='other',
   note='On every returning path the component set and values of the operand are those the operation specifies, as equations over symbolic sets. ' + ENGINE),
 'C08': dict(technique='compile-time witnesses: type-level positives and must-not-compile negatives, type-checked against the current headers',
   level='proof',
   note='Each obligation is decided by the compiler front end on the current headers: a static_assert over the type of an accessor, or a program that must be rejected for the stated reason (its twin without the violation must compile). Universally quantified template clauses are decided for an enumerated family of type lists. Casts (const_cast, reinterpret_cast) by the user are out of scope.'),
 'C15': dict(technique='abstract interpretation of the archetype constructor with loop sums and arithmetic modulo an unknown power of two; term-by-term comparison of the room used and the room set aside', level='proof',
   note='For an arbitrary set of components: every array starts aligned and not before the end of the arrays so far, the end moves by capacity times size, and what the capacity is computed from covers, component by component, sizes and worst-case padding; sets that do not fit are refused; the buffer has at least the alignment of every block; chunks share capacity and blocks with their archetype, and no storage operation stores a row at or behind the capacity. Assumes sizes that do not overflow 64 bits.'),
 'C18': dict(technique='abstract interpretation of every bitset and set operation over an arbitrary set, with a per-bit domain for blocks and loop summaries for trimming, comparing and hashing', level='proof',
   note='For an arbitrary set and element: the bit addressed ends up as the operation says and every other bit is kept, dropped blocks are zero, a negative comparison needs a block proven to differ and a positive one all blocks of both sets compared, the hash depends on blocks only, and either blocks are kept canonical or comparison and hash ignore trailing zeros. The list of metadata follows the bits. Assumed: 64-bit sizes, no out-of-memory.'),
 'C22': dict(technique='type-level distinctness asserts plus linkage/visibility query over the LLVM IR of host, client and stand-alone builds, and abstract interpretation of the ID initialiser',
   level='proof',
   note='Decides that the ID counter and table are one object per process in each configuration (linkage and visibility of the symbols reached from the ID initialiser) and that the initialiser looks a type up before it assigns. Trusts the dynamic linker to unify default-visibility symbols.'),
 'C23': dict(technique='abstract interpretation of the type-erased operations instantiated for a representative of every class of component type',
   level='proof',
   note='Each function the description object points to is followed on all paths: exactly one construction, assignment or destruction, as the right type, on exactly the objects its arguments designate; size, alignment and identity recorded are those of the type. The templates depend on the type only, so the classes of types (trivial, empty, odd-sized, over-aligned, copyable, move-only, nothrow-copyable, large, polymorphic, final) stand for all.'),
 'C09': dict(technique='abstract interpretation of the access declarations of every kind of system parameter against what the parameter gives', level='proof',
   note='For each parameter list analysed (every kind alone, repeated and in combination, every kind of callable) the declared accesses include, on every path, what the parameters give. Component identities stay symbolic, so one analysis stands for all component types of that shape. A new kind of parameter found in the headers that no analysed list covers is reported as undecided.'),
 'C10': dict(technique='abstract interpretation of the access algebra over arbitrary patterns, and dataflow over an arbitrary iteration of the batching and running loops', level='proof',
   note='Patterns are arbitrary (seen from one arbitrary component), the batching loop is analysed in an arbitrary iteration (a system is stored in a batch only where the accumulated accesses were asked and allowed it, which are then extended by its own), and the running loops show no submission or direct run while tasks of another batch are outstanding. Rests on C09 for the declarations and C11 for joins. Assumes that what the pool joins is what wait() is given.'),
 'C11': dict(technique='exactly-once and join dataflow over arbitrary iterations of the building and running loops; counter protocol of tasks', level='proof',
   note='Every container of systems is gone through from first to last, an arbitrary iteration places or runs the element looked at exactly once, tasks are joined before return, stages run in index order and commands are applied after them; tasks count down after their function with orders that publish their effects, and wait() returns only on a path where the counter was read as zero. A task that throws and more than 4096 outstanding tasks are out of scope (see DESIGN.md).'),
 'C17': dict(technique='inductive invariant of the sparse containers (index and dense storage refer to each other) by abstract interpretation with congruence closure and case splits over the entries written', level='proof',
   note='From an arbitrary map satisfying the invariant, every operation with an arbitrary key re-establishes it for an arbitrary entry on every exit; the keys present are exactly the old ones plus or minus the one named, values stay with their keys, lookups answer presence and stay inside the vectors. Keys below 2^60, no out-of-memory.'),
 'C19': dict(technique='abstract interpretation of the allocators with linear facts and 64-bit wrap-around terms; modular arithmetic rule for alignment', level='proof',
   note='From an arbitrary arena state, every block returned is aligned, inside the arena and behind everything still in use, refused requests change nothing, a release of the latest block gives its room back, and no size computation wraps unless it is checked. LIFO release and alignments up to 128 of the stack allocator are preconditions (asserted).'),
 'C21': dict(technique='nested loop summaries over an arbitrary archetype, chunk and row of an arbitrary registry; tiling and join dataflow of parallel_for', level='proof',
   note='Every way of going through a view is interpreted over an arbitrary registry: archetypes are skipped exactly when a requested component is missing, chunks and rows are visited from first to last once each, and all arguments belong to that row and have their type. parallel_for is interpreted over an arbitrary range and number of workers. Callbacks that change the registry are out of scope.'),
 'C13': dict(technique='escape, ownership and lock-set analysis of command buffers; effect analysis of recording', level='proof',
   note='All functions that touch the list of buffers, all kinds of commands and all paths are covered; that a reservation writes only atomics is part of the argument. Assumes, as documented, that no thread records while commands are applied.'),
 'C14': dict(technique='loop summaries over an arbitrary buffer and command; effect comparison of recording followed by applying against the direct operation', level='proof',
   note='Every kind of command is recorded and applied abstractly, and its effects compared with those of the direct operation (value provenance included); the effects of the registry operations themselves are C01 to C07. A command that fails (an exception) is taken off the list before.'),
 'C12': dict(technique='interpretation of every path with volatile atomics (arbitrary interference at every load) and proof obligations of the Chase-Lev deque in the C++ memory model on orders, fences, conditions and array lifetimes', level='proof',
   note='The obligations are those of the published proof of the algorithm (Le et al., PPoPP 2013) plus release/consume publication of grown arrays; that they suffice is taken from there. That one thread owns each queue is checked in thread_pool.hpp. 2^63 elements are not reached.'),
 'C25': dict(technique='dataflow of reference validity: container generations carried by every reference, pointer and iterator, checked at each use on every path (two consecutive iterations of loops)', level='proof',
   note='Every use, return and storing of a reference into a growing container is checked on the paths of the storage operations, containers, handle pool, commands, views and schedules. Functions of the user that change the storage while they hold references into it are misuse. Hash table internals are not followed.'),
 'C20': dict(technique='interpretation of every special member from arbitrary states, field-by-field transfer and ownership rules (owning fields derived from the destructor), generic iteration of copying loops', level='other',
   note='Move, copy, assignment, swap and self-assignment of hash table, chunk, component set, sparse table and arenas, field by field; what the target had is released once or handed over. Archetypes, whose chunks and locations refer to them, must not be moved. Failures of element copies and the destruction of elements inside a hash table are not part of it.'),
}

NOTES = 'All checks are static: they read /repo/include on every run (through clang), and run nothing of it.'
