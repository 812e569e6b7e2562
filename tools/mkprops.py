import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state,obs):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b) for a,b in state],observe_at=obs,hook_needed=None)))
I="include/co_ecs/"
p("C01","Every submitted task runs exactly once",
"Every task submitted to the thread pool, from the creating thread or from inside a running task, is executed exactly once once it has been waited for (directly or through its parent). This holds for every interleaving of the workers, however many tasks are in flight and whichever worker steals them; no task is lost, executed twice or replaced by another while it is unfinished.",
["schedules","programs","fault_sequences"],"all schedules and C++-memory-model behaviours of the workers, all worker counts, all task trees including more tasks in flight than any internal buffer holds; stalls, spurious wakeups, stale reads",
"Existing tests submit a handful of tasks on real threads; the interleavings that duplicate or lose a task (last element raced by owner and thief, growth during a steal, slot reuse) occur with vanishing probability.",
[I+"thread_pool/task.hpp",I+"thread_pool/thread_pool.hpp",I+"detail/work_stealing_queue.hpp"],
[("per-worker work-stealing deque",I+"detail/work_stealing_queue.hpp: push/pop/steal"),("ring of reusable tasks per thread",I+"thread_pool/task.hpp: task_pool::allocate"),("worker loop",I+"thread_pool/thread_pool.hpp: worker::run/get_task/execute")],
[("unfinished counter of a task","0 means the task and its children are done"),("ring index of each thread","next slot handed out")],
["execution count of each submitted callable after its wait"])
p("C02","wait() returns only after the whole task tree finished, effects visible",
"When waiting for a task returns, that task and every task submitted with it (transitively) as parent have finished executing, and everything they wrote happens-before the return, so the waiter can read it without further synchronisation. A task never counts as complete while one of its children is unfinished, however children are attached and however deep the tree is.",
["schedules","programs","fault_sequences"],"all interleavings and weak-memory behaviours permitted by C++20, all task trees (depth, width, children attached before or after the parent body ended)",
"Tests wait on flat trees on x86, where hardware hides missing acquire/release ordering and the window for premature completion is a few instructions wide.",
[I+"thread_pool/task.hpp",I+"thread_pool/thread_pool.hpp"],
[("unfinished counter with parent propagation",I+"thread_pool/task.hpp: task_t ctor, finish, is_completed"),("helping wait loop",I+"thread_pool/thread_pool.hpp: worker::wait")],
[("unfinished counter","own body plus unfinished children")],["plain (non-atomic) results written by tasks and read after wait"])
p("C03","Pool makes progress, shuts down, can be re-created, survives start failure",
"Once scheduling is fair and faults stop, every wait on submitted work returns within a bounded number of steps, destroying a pool terminates all its workers and joins them, and a new pool can then be created and used. If a worker thread cannot be started, creating the pool reports an exception, leaves no thread behind and no pool registered, and a later creation succeeds.",
["schedules","fault_sequences","histories"],"all schedules and stalls, lost or spurious wakeups, thread-creation failure at any worker, any sequence of create/use/destroy, any worker count",
"Tests create one or two pools on an idle machine and never fail a thread start; a lost wakeup or a shutdown racing with a sleeping worker is invisible there.",
[I+"thread_pool/thread_pool.hpp"],
[("stop flag, semaphore with timeout",I+"thread_pool/thread_pool.hpp: worker::run/idle/stop, thread_pool::wake_worker/wait"),("single-instance registration",I+"thread_pool/thread_pool.hpp: ctor/dtor/get")],
[("registered pool instance","the pool that get() returns"),("active flag of each worker","cleared to stop it")],
["steps until wait/destructor returns","number of live simulated threads after destruction","exceptions from the constructor"])
p("C04","Work-stealing deque is linearizable with owner-LIFO and thief-FIFO order",
"For one owner pushing and popping and any number of thieves stealing concurrently, each pushed element is returned by at most one successful pop or steal and no element that was not pushed is ever returned; when the owner has drained the deque, every element has been returned exactly once. Owner pops return the most recently pushed remaining element and steals the oldest remaining one, and growth beyond the initial capacity changes none of this; what the owner wrote before the push is visible to whoever receives the element.",
["schedules","histories","configurations"],"all interleavings and weak-memory behaviours of one owner and several thieves, any initial power-of-two capacity, any push/pop/steal history including repeated growth",
"The existing container tests use the deque from few threads at real speed; growth concurrent with a steal and the single-element race need precise interleavings or weak memory ordering.",
[I+"detail/work_stealing_queue.hpp"],
[("Chase-Lev deque",I+"detail/work_stealing_queue.hpp: push/pop/steal/grow")],
[("top, bottom, array","indices of the oldest/next element and the current ring")],
["history of push/pop/steal results checked against a sequential deque"])
p("C05","parallel_for applies the function to every element exactly once before returning",
"parallel_for applies the function to each element of the range exactly once and returns only when all applications have finished with their effects visible to the caller. This holds for any range length and any number of workers, when nested inside tasks or other parallel_for calls, and whatever other work the pool is running.",
["schedules","inputs","programs","configurations"],"all schedules, range lengths 0..n (including not divisible by and smaller than the worker count), random-access and forward-only ranges, nesting depth, worker counts",
"Tests use a few sizes on flat calls with one pool size; remainder handling, nested use of the shared scratch memory and premature return depend on size/worker combinations and schedules.",
[I+"thread_pool/parallel_for.hpp",I+"detail/allocator/temp_allocator.hpp",I+"detail/allocator/stack_allocator.hpp"],
[("batching into one task per worker",I+"thread_pool/parallel_for.hpp: parallel_for"),("thread-local scratch memory for the batches",I+"detail/allocator/temp_allocator.hpp")],
[("batch list","one subrange per worker, in scratch memory")],
["per-element application counters and plain per-element results after return"])
p("C06","Parallel view iteration is equivalent to sequential iteration",
"Iterating a view in parallel visits exactly the entities, with exactly the components, that sequential iteration of the same view visits, each exactly once, and all modifications are visible when it returns. Running it from inside systems or tasks, with any archetype and chunk layout, gives the same result.",
["schedules","histories","configurations"],"all schedules and worker counts, any registry contents (empty archetypes, many chunks, fewer chunks than workers), read-only and mutating views",
"The test iterates one small registry in parallel; wrong splits of the lazily joined chunk range and effects made visible too late need particular chunk counts and schedules.",
[I+"view.hpp",I+"thread_pool/parallel_for.hpp",I+"archetype.hpp"],
[("chunk-wise parallel_for",I+"view.hpp: par_each"),("lazy filter/join of archetype chunks",I+"view.hpp: chunks")],
[("chunks of matching archetypes","unit of parallel work")],
["per-entity visit counters and component values after par_each"])
p("C07","Conflicting systems never run at the same time",
"Within a schedule run, two systems whose declared accesses conflict (one may write a component the other reads or writes, or one has exclusive registry access) are never executed concurrently, and the later of the two sees everything the earlier wrote. This includes systems pinned to the calling thread, init systems and systems with exclusive registry access next to systems that only record commands.",
["schedules","programs","configurations"],"all sets of systems with random access declarations in any order and stage layout, all schedules and worker counts",
"The schedule tests use a few fixed system sets; whether two conflicting systems overlap depends on order of declaration, batch packing and the schedule.",
[I+"system/access.hpp",I+"system/stage.hpp",I+"system/system.hpp"],
[("access pattern compatibility",I+"system/access.hpp: access_pattern_t::allows"),("greedy batching",I+"system/stage.hpp: stage::create_executor"),("batch execution",I+"system/stage.hpp: stage_executor::execute_batch")],
[("accumulated access pattern of a batch","union of accesses of the systems in it")],
["enter/leave events of systems, and races on plain component data"])
p("C08","A schedule run executes every system exactly once, stages in order",
"Each run of a schedule executes every system added to it exactly once, wherever it was added and whichever thread it is pinned to; all systems of a stage finish, with their effects visible, before any system of the next stage starts, and systems pinned to the calling thread run on it. Init systems run exactly once, when the executor is created, before any stage. Commands recorded by the systems have been applied when the run (or the creation of the executor) returns.",
["schedules","programs","configurations"],"all stage layouts (empty stages, stages with only pinned systems, stages needing several batches), all access patterns, all schedules and worker counts",
"Tests have one layout per case; execution counts depend on how systems pack into batches and on which kinds of system share a stage.",
[I+"system/schedule.hpp",I+"system/stage.hpp"],
[("stage executor",I+"system/stage.hpp: stage_executor::run/execute_batch"),("schedule executor",I+"system/schedule.hpp: schedule_executor")],
[("batches and pinned systems of a stage","what one stage run executes")],
["count, thread and order of system executions per run"])
p("C09","Recorded commands take effect exactly once, in per-thread order, at the flush",
"Every command a thread records (create, clone, set, remove, destroy) takes effect exactly once at the next flush, never earlier, and commands of one thread take effect in the order they were recorded. A command that throws while being applied is not applied again, and every other recorded command is still applied by that or a later flush.",
["schedules","histories","fault_sequences"],"all schedules of the recording threads, all command sequences (several commands on one entity, commands on entities created by commands), throwing component operations and commands on dead entities during record and flush",
"Tests record a few commands and flush once without failures; interleaved recording, repeated flushes and failing commands are not exercised.",
[I+"command.hpp",I+"system/schedule.hpp"],
[("per-thread command buffer with staging registry",I+"command.hpp: command_buffer"),("flush",I+"command.hpp: command_buffer::flush/play_commands")],
[("queue of recorded commands","commands not yet applied"),("staging registry","component values waiting for the flush")],
["registry contents after each flush against a reference model of the recorded commands"])
p("C10","Concurrently reserved handles are unique and become valid entities",
"Entity handles reserved concurrently from any number of threads are pairwise distinct and distinct from every live entity's handle. After the next synchronisation point every reserved handle denotes a live entity, which receives what was recorded, cloned, copied or moved into it, also when entities are created or destroyed directly between the reservation and the synchronisation.",
["schedules","histories"],"all interleavings of reserving threads, any free-list contents (recycled and fresh ids), any mix with direct create/destroy before the synchronisation",
"Tests reserve from one or few threads on an empty or small free list; duplicates arise only for particular interleavings or mixes with direct operations.",
[I+"detail/handle.hpp",I+"base_registry.hpp",I+"command.hpp"],
[("atomic reservation cursor over free list and next id",I+"detail/handle.hpp: handle_pool::reserve/flush"),("materialisation at sync",I+"base_registry.hpp: sync")],
[("free ids, next id, cursor","ids available for reservation")],
["set of handles returned; liveness of each after sync"])
p("C11","Handles: alive exactly between create and destroy, stale handles never revive",
"A handle is reported alive from the moment its entity is created until it is destroyed and never afterwards, even when its slot is reused for other entities. Any operation through a stale or invalid handle is reported as an error and changes nothing.",
["histories","fault_sequences"],"all histories of create/destroy/clone/move/transfer with arbitrary reuse of slots, every operation through every stale handle, failing allocations in between",
"Tests check one reuse; long histories with many generations and stale handles in every operation are not sampled.",
[I+"detail/handle.hpp",I+"base_registry.hpp",I+"entity_ref.hpp"],
[("generation per slot",I+"detail/handle.hpp: handle_pool"),("liveness check before each operation",I+"base_registry.hpp: ensure_alive")],
[("generation table","current generation of each slot")],
["alive(), exceptions and registry state after operations through stale handles"])
p("C12","Registry contents equal a simple map model after any history",
"After any history of creating, destroying, cloning, copying and moving entities (also between registries) and setting, replacing, getting and removing components, the registry contains exactly the live entities with exactly the components and values that applying the same operations to a map from entity to components gives. Every component is stored at a properly aligned address of its own, and operations on one entity never change another.",
["histories","inputs","configurations"],"all operation histories over many component types (different sizes, alignments, empty tags, trivially and non-trivially copyable), any archetype/chunk layout and number of component types",
"Tests check a few operations each on small registries; multi-chunk, many-archetype and swap-erase interactions arise only in longer histories.",
[I+"base_registry.hpp",I+"entity_ref.hpp",I+"archetype.hpp",I+"chunk.hpp",I+"component.hpp"],
[("archetype/chunk storage",I+"archetype.hpp, "+I+"chunk.hpp: emplace_back/swap_erase/move/copy"),("entity location table",I+"base_registry.hpp"),("component-set lookup",I+"archetype.hpp: archetypes::ensure_*")],
[("location of an entity","archetype, chunk, row"),("rows of chunks","component data")],
["complete dump of the registry (all entities, components, values, addresses) compared to the model"])
p("C13","A failed operation has no effect and leaves the registry usable",
"When a registry operation fails (a component constructor, copy or allocation throws, a component set does not fit a chunk, a component cannot be copied, the handle is stale), the failure is reported as an exception, all other entities and components are unchanged, the target entity keeps its previous components or, for creation, does not exist, and every later operation behaves as if the failed one had not been attempted.",
["fault_sequences","histories","inputs"],"all operation histories with one or more failures injected at any allocation, constructor, copy or move that may throw",
"Tests do not inject failures; the states a mid-operation exception leaves behind only show in later operations.",
[I+"base_registry.hpp",I+"entity_ref.hpp",I+"archetype.hpp",I+"chunk.hpp",I+"detail/handle.hpp",I+"detail/hash_table.hpp",I+"exceptions.hpp"],
[("construct/insert order in each mutating operation",I+"archetype.hpp, "+I+"chunk.hpp, "+I+"entity_ref.hpp"),("id allocation",I+"detail/handle.hpp")],
[("archetype map, location table, id pool","must stay mutually consistent")],
["registry dump before/after the failed operation and behaviour of later operations"])
p("C14","Every stored component is destroyed exactly once and nothing leaks",
"Each component object the library constructs (by create, set, copy, move, staging of commands or internal relocation) is destroyed exactly once, no object is used before construction or after destruction, and when the registries are destroyed no component object or memory remains. This includes components handed over in recorded commands and operations interrupted by exceptions.",
["histories","fault_sequences","schedules"],"all operation histories with and without injected failures, component types with move-only, copy-only and throwing operations, command recording from several threads",
"Tests do not count objects; leaks and double destructions are silent in them.",
[I+"chunk.hpp",I+"archetype.hpp",I+"entity_ref.hpp",I+"component.hpp",I+"command.hpp",I+"detail/hash_table.hpp"],
[("type-erased construct/move/destroy",I+"component.hpp: component_meta"),("row relocation",I+"chunk.hpp: swap_erase/move/destroy")],
[("set of constructed objects by address","ground truth kept by instrumented components")],
["instrumented component constructors/destructors and simulated heap at the end of the run"])
p("C15","A view enumerates each matching entity exactly once, also when reused",
"Iterating a view (as a range, with a function, per chunk, or taking a single element) yields each live entity having all requested components exactly once, with references to that entity's own components, and no other entity. A view created earlier and reused after any changes to the registry yields the contents at the time of the iteration.",
["histories","inputs","configurations"],"all registry histories (including emptied chunks and archetypes, chunk boundaries, component-set lookups across many component ids), all component selections",
"Tests iterate a few fixed layouts; filters over emptied archetypes and re-used views over changed archetype maps are not sampled.",
[I+"view.hpp",I+"archetype.hpp",I+"chunk.hpp",I+"detail/hash_table.hpp"],
[("filter/transform/join over the archetype map",I+"view.hpp: chunks"),("chunk iterators",I+"chunk.hpp: chunk_view")],
[("archetype map","iterated in map order")],
["multiset of (entity, component addresses/values) yielded versus the model"])
p("C16","Commands survive the threads that recorded them",
"Commands recorded by a thread that has since exited (for example a worker of a destroyed pool) are applied by the next flush like any others, and flushing or recording afterwards never touches memory of exited threads. Creating and destroying pools between recording, running schedules and flushing therefore never loses, repeats or corrupts commands.",
["schedules","histories","fault_sequences"],"all interleavings of thread exit, pool creation/destruction, recording and flushing, any number of generations of threads",
"Tests keep one pool for their whole life and exit right after, so recorded state never outlives its thread in an observable way.",
[I+"command.hpp",I+"system/schedule.hpp",I+"thread_pool/thread_pool.hpp"],
[("global list of per-thread command buffers",I+"command.hpp: command_buffer::get/flush")],
[("list of command buffers","buffers visited by a flush")],
["registry contents after flush; accesses to freed or thread-local memory of exited threads"])
p("C17","Associative containers behave like maps under any history and failure",
"The hash and sparse containers the registry is built on contain exactly the keys and values a reference map has after any sequence of inserts, assignments, lookups, erasures, copies, moves, clears and iterations, including growth, many colliding keys and reuse after erasure. If an allocation or the copy of a key or value throws during an operation, the container stays valid, loses no element other than those the operation concerns, and leaks nothing.",
["histories","inputs","fault_sequences"],"all operation sequences over adversarial key sets (collisions, equal low bits) with allocation and copy failures at any point",
"Container tests insert and erase a few keys; collision chains across growth/erase and mid-rehash failures are not sampled.",
[I+"detail/hash_table.hpp",I+"detail/sparse_table.hpp",I+"detail/dynamic_bitset.hpp"],
[("open addressing table",I+"detail/hash_table.hpp"),("paged sparse table",I+"detail/sparse_table.hpp")],
[("buckets","slots with elements")],
["full iteration and lookups compared with std::map"])
p("C18","Component types keep one consistent identity across translation units",
"A component type has one identity in the whole process, no matter in how many translation units or shared libraries it is used, and distinct component types have distinct identities.",
["programs","configurations"],"all arrangements of translation units and shared libraries, all component types",
"Tests link one shared library with four component types.",
[I+"component.hpp",I+"type_meta.hpp"],
[("type-name keyed registration",I+"component.hpp")],
[("registered component identities","type to id")],
["ids seen by different libraries"])
p("C19","A failed submission has no effect and leaves nothing running",
"When submitting work fails (memory is exhausted, copying a callable or a system throws, a worker cannot be started, a system on the calling thread throws), the caller gets the exception. A task whose submission failed is never executed and nobody waits for it: waiting for its parent and for all other work still returns. When parallel_for, the creation of a pool or executor or a run of a schedule fails, everything it had already started has finished before the exception reaches the caller, nothing of it happens later, nothing leaks, and later submissions, runs and pools work as if the failed one had not been attempted.",
["fault_sequences","schedules","histories"],"allocation failures, throwing copies of callables, thread start failures and throwing calling-thread systems at every point of any sequence of submissions, waits, parallel_for calls, schedule set-ups and runs, under all schedules",
"No test makes an allocation or a copy fail; a half submitted parallel_for or stage leaves tasks referring to dead variables only if the failure hits between two submissions and a worker is late.",
[I+"thread_pool/task.hpp",I+"thread_pool/thread_pool.hpp",I+"thread_pool/parallel_for.hpp",I+"system/stage.hpp",I+"system/schedule.hpp",I+"detail/work_stealing_queue.hpp",I+"detail/allocator/temp_allocator.hpp"],
[("construction of a task in the ring",I+"thread_pool/task.hpp: task_pool::allocate/next"),("queueing and taking it back",I+"thread_pool/thread_pool.hpp: worker::submit"),("hand-out of batches",I+"thread_pool/parallel_for.hpp: parallel_for; "+I+"system/stage.hpp: stage_executor::execute_batch")],
[("unfinished counter of the parent","counts a child whose submission failed"),("tasks already handed out","refer to variables of the caller")],
["exceptions at the caller, execution counts of every callable and system, activity after the exception, live memory"])
p("C20","One registry can be read by any number of threads at the same time",
"While no thread changes which entities a registry has or which components they have, any number of threads may query it at the same time (alive, has, get, visit, size, archetypes, single, constant views iterated in every way, copying entities into registries of their own), and each gets exactly the content of the registry. This also holds while other threads write, through views, components nobody else accesses, reserve handles and record commands: none of these accesses races with another.",
["schedules","programs","inputs"],"all contents (any archetype and chunk layout), all sets of concurrent readers, writers of disjoint components, reservations and recorded commands, under all schedules and C++ memory model behaviours",
"The tests read registries from one thread only, or through systems on a small registry; a cache or scratch object hidden behind a constant operation goes wrong only when two threads meet in it.",
[I+"base_registry.hpp",I+"registry.hpp",I+"entity_ref.hpp",I+"archetype.hpp",I+"chunk.hpp",I+"view.hpp",I+"detail/handle.hpp",I+"detail/sparse_table.hpp",I+"detail/hash_table.hpp"],
[("lookup of entities",I+"base_registry.hpp: get_location, has, visit, get_impl"),("iteration",I+"view.hpp: chunks/each/single; "+I+"chunk.hpp: chunk_view"),("reservation next to readers",I+"detail/handle.hpp: reserve/alive")],
[("location map, chunks, free list","shared by all readers")],
["answers of every query compared to the model; happens-before races between any two accesses"])
p("C21","Registries are independent of each other and of the thread using them",
"Threads that work on different registries need no synchronisation with each other: each registry behaves exactly as if it were the only one, whatever is done to the others at the same time, including operations that fail. A registry can be handed from one thread to another with ordinary synchronisation and used or destroyed there, and destroying one, or the exit of the thread that used it, never affects another.",
["schedules","histories","fault_sequences"],"all histories of operations on several registries by several threads, with failing allocations and copies, hand-over of registries and exit of threads in between, under all schedules",
"The tests use one registry on one thread; state shared between registries by mistake (statics, thread-local scratch objects, caches) shows only when two registries are used at the same time or a registry outlives its thread.",
[I+"archetype.hpp",I+"base_registry.hpp",I+"chunk.hpp",I+"component.hpp",I+"type_meta.hpp",I+"detail/hash_table.hpp",I+"detail/sparse_table.hpp"],
[("search key of the archetype map",I+"archetype.hpp: archetypes::_search_component_set"),("component identities and descriptions",I+"component.hpp: type_registry, "+I+"type_meta.hpp: type_meta::of")],
[("everything a registry refers to","belongs to it alone or never changes")],
["content of each registry compared to a model of its own; happens-before races; lives of components and leaks at the end"])
p("C22","Scratch memory blocks never overlap, leave their buffer or lose their content",
"Every block handed out by the linear, the stack or the per-thread temporary allocator lies inside the allocator's own memory, is aligned as requested and shares no byte with a block still in use, of the same or another thread. When there is not enough space (or the thread's memory cannot be allocated) this is reported and changes nothing; a request that fits is served. Releasing the most recent block, resetting or moving an allocator keeps or restores exactly the space and the blocks that were there.",
["inputs","histories","schedules","fault_sequences"],"all sequences of allocations of any size and alignment, releases in reverse order, resets and moves, on buffers of any size and alignment, exhausted or not; any number of threads using temporary memory, also inside nested parallel_for calls, with failing allocations",
"Two tests allocate a few blocks from a large aligned buffer; the errors are at the last bytes of a buffer, at unusual alignments and after a failure.",
[I+"detail/allocator/stack_allocator.hpp",I+"detail/allocator/linear_allocator.hpp",I+"detail/allocator/temp_allocator.hpp",I+"thread_pool/parallel_for.hpp"],
[("header and padding of a block",I+"detail/allocator/stack_allocator.hpp: allocate/deallocate"),("bump pointer",I+"detail/allocator/linear_allocator.hpp: allocate"),("memory of the thread",I+"detail/allocator/temp_allocator.hpp: global_stack_allocator")],
[("offset of the top of the stack","everything below is in use")],
["addresses of all blocks in use, their content, bytes reported as left"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
