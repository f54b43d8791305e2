#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to review and edit)."""
import json, os
S='src/Semaphore.cpp'; SH='src/Semaphore.hpp'; RG='src/RingBufferGuarded.hpp'; RS='src/RingBufferSimple.hpp'
MP='src/MemoryPoolBase.cpp'; MPH='src/MemoryPoolBase.hpp'; OP='src/ObjectPool.hpp'; OD='src/ObjectPoolDeleter.hpp'
BP='src/BlockPool.hpp'; BD='src/BlockPoolDeleter.hpp'; MQ='src/MessageQueue.hpp'; MQC='src/MessageQueue.cpp'
MB='src/MessageQueueBase.cpp'; MBH='src/MessageQueueBase.hpp'; MX='src/Mutex.cpp'; MD='src/MemoryPoolDeleterBase.cpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Semaphore counting is exact under concurrency",
 "At every moment a semaphore's available count equals its initial count plus the completed gives minus the completed takes, and it is never negative nor above the maximum. Concurrent takes, gives and count queries are linearizable: no unit is ever taken twice, lost or invented, and an operation waits only while the count forbids it.",
 ["schedules","histories","fault_sequences"],"every interleaving of any number of takers, givers and observers, with spurious and reordered wake-ups",
 "testSemaphore runs a few threads on whatever schedule the OS happens to give and looks only at final totals; it cannot produce spurious wake-ups, stolen units or a preemption inside a critical section.",
 [S,SH],[("count changes under the internal lock","Semaphore::Imple::_take/_give"),("re-test loop around every wait","Semaphore::Imple::_take/_giveWait")],
 [("availableCount","units that may be taken without blocking","Semaphore::Imple")],["take/give return","getAvailableCount()"])
p("C02","A semaphore never strands a waiting caller",
 "Whenever a unit is available and callers are waiting to take, or room is available and callers are waiting to give, one of them proceeds without needing any further call by anyone else. This also holds when a user callback passed to take or give throws, when wake-ups are spurious, and when a newly arrived caller overtakes a waiting one.",
 ["schedules","fault_sequences"],"every interleaving of waiting callers, overtaking callers, throwing callbacks and spurious wake-ups",
 "A lost wake-up needs one exact interleaving (or one callback that throws in a woken thread while another still waits); the tests never throw from a callback while someone else is waiting.",
 [S],[("signal per give, signal per take when givers are pending","Semaphore::Imple::_give/_takeNotify"),("count restored when the callback throws","Semaphore::Imple::take(operation)")],
 [("takePendingCount/givePendingCount","number of blocked callers","Semaphore::Imple")],["blocked callers at quiescence"])
p("C03","Semaphore callbacks are atomic and all-or-nothing",
 "The callback passed to a successful take or give runs exactly once, while no other callback of the same semaphore runs and while the count cannot change; it is never run by an operation that fails as aborted or overflowed. If the callback throws (or is empty), the exception reaches the caller and the semaphore behaves afterwards as if the call had never been made.",
 ["schedules","fault_sequences"],"every interleaving of callback operations with every choice of throwing callbacks",
 "Tests throw from a callback only single-threaded; mutual exclusion of callbacks against every other path is a schedule property.",
 [S],[("callback invoked with the internal lock held","Semaphore::Imple::take(operation)/give(operation)"),("RAII restoration of the count","AvailableCountManager")],None,["callback entry/exit","getAvailableCount()"])
p("C04","Semaphore limits hold: bounded gives wait, unbounded gives overflow",
 "With a maximum specified, a give waits exactly while the count is at that maximum (raised to the initial count if smaller, and limited to 2^32-1 if larger); without one, a give never waits. A give when the count is 2^32-1 fails with the overflow error and changes nothing; initial counts above 2^32-1 are treated as 2^32-1.",
 ["inputs","schedules","histories"],"every initial count and maximum (including extremes) and every interleaving of gives and takes at the limits",
 "Tests use two or three small limits and one schedule; behaviour at the limits under contention and for out-of-range maxima is not sampled.",
 [S,SH],[("clamping of construction arguments","doctorMaxAvailableCount"),("overflow test and wait loop","Semaphore::Imple::_giveWait")],
 [("maxAvailableCount","the bound","Semaphore::Imple")],["give blocking/return/throw"])
p("C05","Abort releases every semaphore waiter and is permanent",
 "Once abort has been called, every caller blocked in take or give is released with the aborted error, however many there are, and every operation started after abort returned fails the same way; nobody stays blocked and no operation succeeds afterwards. Before any abort, no operation reports that error; abort may be called repeatedly and concurrently.",
 ["schedules","crash_points"],"abort at every point of every interleaving, from any thread, any number of waiters",
 "Tests abort one waiter after sleeping; the race of abort with callers entering, waking or mid-callback is not reachable by them.",
 [S],[("flag under lock plus broadcast","Semaphore::Imple::abort"),("flag re-test after every wake-up","_take/_giveWait")],[("abortFlag","terminal state","Semaphore::Imple")],["exceptions leaving take/give"])
p("C06","Destroying a semaphore or ring with blocked callers is safe",
 "When a semaphore or a blocking ring buffer is destroyed while callers are blocked in it, every one of them leaves with an error and none touches the object after its storage has been released, provided each gets to run within the documented grace period (about 100 ms).",
 ["schedules","crash_points"],"destruction at any point with any mix of blocked callers, with bounded scheduling delays",
 "No test destroys an object with threads still inside; use-after-free after a late wake-up depends on the schedule.",
 [S,RG],[("abort then grace delay in the destructor","Semaphore::Imple::~Imple"),("abort in the ring destructor","~RingBufferGuardedBase")],None,["memory accesses after release","exceptions leaving blocked calls"])
p("C07","Blocking ring buffer is an exactly-once FIFO",
 "Each value put into a blocking ring buffer by any thread is obtained by exactly one get, unchanged, and values come out in the order they went in (linearizable FIFO), for any element type, capacity and number of producers and consumers.",
 ["schedules","histories","configurations"],"all interleavings of producers and consumers, all capacities, histories long enough to wrap many times",
 "The threaded test checks only that payloads are valid and totals match; it cannot detect reordering, and samples few schedules.",
 [RG,RS,S],[("ring accessed only inside the semaphore callback","RingBufferGuardedBase::get/put"),("masked counters","RingBufferSimpleImple::get/put")],[("getCount/putCount","positions","RingBufferSimpleImple")],["values returned by get"])
p("C08","Blocking ring buffer applies exact backpressure and never stalls",
 "A put waits exactly while the buffer holds the requested number of elements and a get waits exactly while it is empty; neither fails, overwrites or returns early for lack of room or data. Whenever room or data exists, a waiting caller proceeds, so equal numbers of puts and gets always all complete.",
 ["schedules","configurations"],"all interleavings and all requested capacities from the minimum to the documented maximum and beyond",
 "The tests use one capacity with matched totals; off-by-one capacity, lost wake-ups and extreme capacities do not show there.",
 [RG,S,RS],[("bounded semaphore sized to the request","RingBufferGuardedBase constructor"),("bipolar semaphore","Semaphore")],None,["put/get blocking and return"])
p("C09","Ring abort releases callers; flush hands back exactly the remainder",
 "After abort no get ever returns a value again, every blocked get or put is released with an error, and nothing blocks. A flush after abort hands over exactly the values accepted and not yet taken, each once and in order, leaving the buffer empty; flush is refused before abort.",
 ["schedules","crash_points","histories"],"abort and flush at every point of every interleaving of producers and consumers",
 "Tests never abort with operations in flight and never compare a flush with what was accepted.",
 [RG],[("terminal state and semaphore abort","RingBufferGuardedBase::abort"),("flush loop","RingBufferGuardedBase::flush")],[("state","lifecycle state","RingBufferGuardedBase")],["flush callback","exceptions"])
p("C10","Ring lifecycle: priming gates use and fills exactly the request",
 "A ring buffer built for priming refuses get and put until priming has completed, priming delivers exactly the requested number of elements in index order, and it can be done only once. If an abort lands before or during priming, the buffer ends up aborted, never usable, and flushing it hands back exactly the elements primed so far.",
 ["schedules","crash_points","configurations"],"every interleaving of priming, early users and abort; every capacity",
 "Tests prime single-threaded with no concurrent abort or early use.",
 [RG],[("state machine with compare-exchange","RingBufferGuardedBase::prime"),("initial semaphore count","constructor")],[("state","lifecycle state","RingBufferGuardedBase")],["exceptions","values obtained after priming"])
p("C11","Live pool memory is exclusive, in bounds, aligned and stable",
 "At all times the objects and blocks handed out by a pool, and the messages held by a message queue, occupy disjoint, pointer-aligned storage inside that container's own memory, each at least as large as the thing placed in it. No library operation by any thread ever alters the contents of another live object, for any object size, element count or class hierarchy the API accepts.",
 ["schedules","histories","configurations","inputs"],"all histories of create, destroy and reuse by any threads, all element sizes and derived types",
 "Tests use one or two sizes that happen to be multiples of the word size and never check a neighbour's contents after another allocation.",
 [MP,MPH,OP,OD,BP,BD,MQ,MBH,MB],[("padded stride through the arena","MemoryPoolBase::Imple, MessageQueueBase::Imple"),("zero fill on hand-out","getRawBlock/rawWaitAndGet"),("storage returned by address","ObjectPoolDeleter, CookedMemoryManager")],None,["addresses and contents of live objects"])
p("C12","Pools never lose or duplicate capacity",
 "A pool of capacity N (the request rounded up to a power of two) can always have exactly N objects or blocks outstanding: a request succeeds whenever one is free, fails with the exhaustion error only if all were in use at some moment during the call, and each release, from any thread, makes one available again. Requests that fail, because a constructor throws or the type is too large, consume nothing.",
 ["schedules","histories","fault_sequences"],"all interleavings of create and destroy across threads, with constructor failures anywhere",
 "Tests exhaust and refill a pool single-threaded and only a handful of times.",
 [MP,OP,BP,RS,OD,BD],[("ring of free blocks under a mutex","MemoryPoolBase::Imple::getRawBlock/returnRawBlock"),("RAII return on constructor failure","RawMemoryManager")],[("ringBuffer","free blocks","MemoryPoolBase::Imple")],["createObj/getBlock success or exhaustion"])
p("C13","Pool objects live exactly once; scalar blocks start zeroed",
 "Every object a pool hands out is constructed once with the given arguments and destroyed exactly once, before its storage can be handed out again; a block destroys every one of its elements once. Blocks of scalars always start all zero even when the storage was used before, and a constructor that throws leaves no element alive.",
 ["schedules","histories","fault_sequences"],"all reuse histories across threads, all block sizes, a throw at any element",
 "Tests check freshly built pools; stale contents after reuse, and partial construction at an arbitrary element under concurrency, are not covered.",
 [BP,BD,OP,OD,MP],[("in-place construction","ObjectPool::createObj, BlockPool::getBlock"),("deleter destroys then returns","ObjectPoolDeleter, BlockPoolDeleter"),("zero fill","getRawBlock")],None,["constructor/destructor calls","block contents at hand-out"])
p("C14","Pool statistics snapshots are always coherent",
 "A statistics snapshot taken at any moment by any thread reports a free count between zero and the pool size that agrees with the allocations outstanding around that moment, and a low watermark that never rises and never exceeds the free count's true minimum. When no call is in progress both are exact.",
 ["schedules","histories"],"a snapshot at every point of every interleaving of create and destroy",
 "Tests read statistics only when idle; transient nonsense values between two updates need a snapshot or another allocation at that exact moment.",
 [MP],[("packed atomic updated by compare-exchange","MemoryPoolBase::Imple runningState")],[("runningState","free count and low watermark","MemoryPoolBase::Imple")],["getRunningStateStatistics()"])
p("C15","Messages are dispatched exactly once, in order, intact",
 "Every message accepted by a message queue that is not aborted, purged or destroyed is dispatched exactly once, with the contents it was enqueued with, and if one enqueue finished before another began then its message is taken for dispatch first. This holds for any mix of message types, put and emplace, producers and dispatching threads.",
 ["schedules","histories","configurations"],"all interleavings of producers and dispatchers, all queue depths and message types",
 "The test counts dispatched messages of one type on one schedule; duplication, reordering or corruption by slot reuse needs particular interleavings.",
 [MQ,MQC,MB,MBH,RG],[("raw and cooked rings exchanging slots","MessageQueueBase::Imple"),("slot returned only after the message is destroyed","CookedMemoryManager")],None,["dispatch() calls"])
p("C16","Message queue backpressure is exact and never deadlocks",
 "At most the requested number of messages is ever held by a queue (queued or being dispatched); an enqueue waits exactly while that many are held, and a dispatcher waits exactly while none is queued. As long as messages keep being dispatched every enqueue completes, and a message that does not fit the slot size is refused without side effects.",
 ["schedules","configurations"],"all interleavings, all depths, any number of producers and dispatchers",
 "The existing test never blocks several producers on a full queue under adversarial schedules.",
 [MQ,MB,RG,S],[("slot ring sized to the request","MessageQueueBase::Imple constructor"),("blocking get of a free slot","rawWaitAndGet")],None,["put/emplace/getAndDispatch blocking and return"])
p("C17","Exceptions never leak slots or messages in a message queue",
 "If a message's constructor, the wake-up callback or the dispatch itself throws, the exception reaches that caller, the message involved (if any) is destroyed exactly once, its slot becomes usable again, and all other messages are unaffected. The queue keeps its full capacity no matter how many such failures occur.",
 ["schedules","fault_sequences"],"a throw at any construction, wake-up or dispatch in any interleaving",
 "Tests throw a couple of times single-threaded; capacity loss under concurrency after repeated faults is not examined.",
 [MQ,MQC,MBH,MB],[("RAII slot managers","RawMemoryManager, CookedMemoryManager")],None,["exceptions","capacity after faults"])
p("C18","Dispatch lock excludes dispatch, and is always given back",
 "With dispatch locking enabled, no message is dispatched while any thread holds the dispatch lock and no two dispatches overlap; a lock request waits for a dispatch in progress. The lock is released exactly once, when its owner is destroyed, unlocked, or overwritten by assignment, including after moves and when a dispatch throws, and enqueueing never needs it; without the option, asking for it is refused.",
 ["schedules","fault_sequences"],"all interleavings of lockers, movers, producers and dispatchers",
 "The test takes the lock a few times against one dispatcher and cannot observe overlap or a lock that is never returned on rare paths.",
 [MB,MBH],[("mutex around dispatch","dispatchMessage"),("RAII lock with move semantics","AutoDispatchLock")],[("locked","ownership of the lock","AutoDispatchLock")],["dispatch() overlap with lock ownership"])
p("C19","Aborting a message queue releases everyone, cleanly",
 "After abort, every blocked or later enqueue and dispatch call ends with an error rather than waiting, no new message is accepted and no further message is taken for dispatch. Whatever the callers are doing when the abort lands (constructing, dispatching, unwinding), the process is not terminated and each message is still destroyed exactly once.",
 ["schedules","crash_points"],"abort at every point of every interleaving of producers and dispatchers",
 "Tests abort an idle or simply blocked queue; the windows inside an enqueue or at the end of a dispatch are a few instructions wide.",
 [MB,MQ,MQC,MBH,RG],[("abort of both rings","MessageQueueBase::Imple::abort"),("slot return in destructors","CookedMemoryManager/RawMemoryManager")],[("aborted","terminal flag","MessageQueueBase::Imple")],["exceptions leaving put/emplace/getAndDispatch","process termination"])
p("C20","Undelivered messages are destroyed exactly once; queue leaves nothing",
 "Destroying or purging a message queue destroys every message still queued exactly once without dispatching it; after a purge the queue is empty and fully usable. Destruction with callers still blocked releases them with errors, and no memory is leaked or touched after release.",
 ["schedules","histories","crash_points"],"destruction or purge after any history, with blocked callers and bounded scheduling delays",
 "Tests destroy queues when idle and do not count message destructor calls.",
 [MB,MQC,RG],[("flush in the destructor","MessageQueueBase::Imple::~Imple"),("purge loop","MessageQueue::purge"),("abort plus grace delay","~MessageQueueBase")],None,["message destructor calls","live heap after destruction"])
p("C21","Message queue statistics snapshots are always coherent",
 "A statistics snapshot taken at any moment reports a number of held messages between zero and the queue size that agrees with the messages enqueued and not yet finished around that moment, and a high watermark that never falls, never exceeds the size, and is at least the number held. When the queue is idle both are exact.",
 ["schedules","histories"],"a snapshot at every point of every interleaving",
 "Tests read statistics when idle; over-reporting between two updates needs a particular interleaving.",
 [MB],[("packed atomic updated by compare-exchange","MessageQueueBase::Imple runningState")],[("runningState","held count and high watermark","MessageQueueBase::Imple")],["getRunningStateStatistics()"])
p("C22","Last-dispatched name always identifies the current message",
 "While a message is being dispatched, and after its dispatch returned or threw until another one starts, the queue reports that message's name as the last dispatched one. Any thread may ask at any time and always gets a complete valid name, or the placeholder before the first dispatch; a message that was never dispatched is never reported.",
 ["schedules","fault_sequences"],"queries at every point of every interleaving, with throwing dispatches and wake-ups",
 "The test looks at the name after one dispatch with no concurrency and no failure.",
 [MB],[("atomic pointer stored before dispatch","dispatchMessage")],[("nameOfLastMessageDispatched","diagnostic name","MessageQueueBase::Imple")],["getNameOfLastMessageDispatched()"])
p("C23","Mutex gives mutual exclusion and reports failures honestly",
 "At most one thread owns a mutex at a time, a blocked locker proceeds once it is released, and a try-lock never blocks: it succeeds if and only if the mutex was free. When the operating system reports an error for lock, try-lock or unlock the caller gets a system error carrying that code and ownership is unchanged; an error is never reported as success.",
 ["schedules","fault_sequences"],"all interleavings of lock, try-lock and unlock with operating-system errors injected anywhere",
 "There is no test of the mutex at all, and operating-system errors cannot be provoked from a test.",
 [MX,"src/Mutex.hpp"],[("return codes mapped to exceptions","Mutex::lock/try_lock/unlock")],None,["ownership","exceptions"])
p("C24","No unbounded priority inversion",
 "Under fixed-priority preemptive scheduling, a high-priority thread that waits for a lock inside any component is delayed only by the threads that hold the locks it needs, never by a medium-priority thread that merely keeps the processor busy. This holds for the mutex itself and for semaphores, ring buffers, pools and message queues including their dispatch lock.",
 ["schedules"],"all fixed-priority single-processor schedules with low, medium and high priority threads contending",
 "Tests run with the default scheduler and equal priorities; inversion cannot occur there.",
 [MX,S,MP,MB],[("priority-inherit protocol at initialisation","Mutex constructor")],None,["which thread runs while a higher-priority one waits for a lock"])
p("C25","No heap use after construction",
 "Once constructed, semaphores, mutexes, ring buffers, pools and message queues perform all their normal operations (waiting, enqueueing, dispatching, creating and returning objects and blocks) without allocating from the system heap, so they keep working when the heap is completely exhausted.",
 ["schedules","fault_sequences"],"heap exhaustion from any point after construction, all operations and interleavings",
 "No test observes or fails allocations.",
 [RG,S,MP,MB,OP,BP,MQ],[("pre-allocated arenas","MemoryPoolBase::Imple, MessageQueueBase::Imple"),("reference-wrapped callbacks","RingBufferGuardedBase::get/put")],None,["allocator calls"])
p("C26","A failed construction reports cleanly and leaks nothing",
 "If any allocation, or the set-up of an operating-system mutex or condition variable, fails while a component is being constructed, the constructor throws the standard error for it (bad_alloc, or a system error with that code), everything acquired so far is released, and nothing else is affected; a later construction that meets no failure succeeds and works.",
 ["fault_sequences","configurations"],"failure of every single allocation and operating-system initialisation during construction of every component and configuration",
 "Tests never make an allocation or an initialisation fail.",
 [MB,MP,S,MX,RG,RS],[("member destruction order on constructor failure","Imple constructors"),("initialisation results checked","Mutex and Semaphore::Imple constructors")],None,["allocator calls","pthread initialisation calls","exceptions"])
p("C27","Concurrent use is free of data races and memory errors",
 "Any concurrent use of the operations documented as thread safe, including abort, destruction of handed-out objects from other threads, statistics and name queries, is free of data races and of out-of-bounds, use-after-release and double-release accesses inside the library. Data handed from one thread to another through any component is fully visible to the receiver.",
 ["schedules","histories"],"all interleavings of all thread-safe operations of all components",
 "Tests run without a race detector on few schedules, and racy code usually gives the right answer.",
 [S,RG,RS,MP,MB,MQ,MX,OD,BD],[("internal locks and sequentially consistent atomics","all components")],None,["every memory access of library code"])
p("C28","Unguarded ring buffer is a bounded FIFO for every call sequence",
 "Used from one thread, the simple ring buffer returns values in insertion order, holds exactly the request rounded up to a power of two, and refuses a get when empty or a put when full with an error and no other effect.",
 ["inputs","histories"],"every sequence of puts and gets and every requested size",
 "The test covers a few sizes and one fill/drain pattern.",
 [RS],[("masked counters","RingBufferSimpleImple")],None,["get/put return or throw"])
p("C29","Misuse of the templates is rejected at compile time",
 "Message, object and block types that do not meet the documented requirements (base class, destructibility, constructibility, scalar elements) are rejected by the compiler rather than misbehaving at run time.",
 ["programs"],"all client programs instantiating the templates",
 "A compiled test suite contains only programs that compile.",
 [MQ,OP,BP,RG,RS],[("static assertions","class and member templates")])
JD='examples/JobDispatcher/src/JobDispatcher.cpp'; JT='examples/JobDispatcher/src/JobTask.cpp'
p("C30","The job dispatcher example runs every job exactly once and finishes",
 "With any number of processors (including one, or unknown) and any schedule, runJobs hands jobs 1 to 128 to the job tasks, each exactly once; each job is run to completion once and returned by the task that got it, and runJobs returns only then, having kept every task busy while jobs remained. Deactivating and destroying it, or an operating-system error while setting up its threads, ends every thread without deadlock, data race or leak.",
 ["schedules","configurations","fault_sequences"],"every processor count, schedule and run-time drawn for the jobs, with thread set-up errors and bounded stalls",
 "It is the one complete application of the library in the repository and no test runs it at all.",
 [JD,JT,MQ,MB,OP],[("replenishment of tasks from the reply queue","JobDispatcher::Imple::runJobs"),("message loop","JobTask/TaskIPC"),("halt by aborting the message queue","JobTask deactivate")],None,["printed progress","thread ends","live heap after destruction"])
p("C31","Components are independent of one another",
 "Operations on one component never block, delay, change or corrupt another: however many semaphores, rings, pools, mutexes and message queues exist, and whatever other threads are doing in theirs (waiting forever, running user code inside a callback or dispatch for any length of time, constructing or destroying), each behaves exactly as it would alone.",
 ["schedules","configurations","histories"],"any number of components of any mix used, constructed and destroyed concurrently by different threads, and from inside one another's user code",
 "Every test exercises one component at a time in one program; state shared by accident between objects is invisible there.",
 [S,SH,MX,MP,MB,MQC,RG],[("all state held per object","Imple classes"),("pimpl ownership","Semaphore, MemoryPoolBase, MessageQueueBase"),("static data limited to constants","MessageQueueBase::Imple, Mutex")],None,["results and blocking of each component compared with it used alone"])
p("C32","Pipelines built from several components conserve every object",
 "When objects flow from a pool through message queues and rings guarded by semaphores and mutexes and back to the pool, each object passes each stage exactly once (in order where every stage has a single thread), every block and slot is returned, and all threads finish. This holds with throwing stages, and with an abort or destruction in the middle every object is still destroyed exactly once and no one stays blocked.",
 ["schedules","histories","fault_sequences"],"every interleaving of multi-stage pipelines with throwing stages, aborts, purges and destruction at any point",
 "Tests exercise each component on its own; composition (messages owning pool objects, releases from within dispatches and message destructors) is never tested.",
 [MQ,MB,OP,OD,RG,S,MX],[("messages owning pool objects","MessageQueue::put/emplace with ObjectPool::ObjPtrType"),("destruction of a message after dispatch","CookedMemoryManager/RawMemoryManager")],None,["objects per stage","pool and queue statistics at the end","live heap"])
p("C33","Progress never depends on the passing of time",
 "No operation of any component needs time to pass in order to proceed: with a clock that never advances, every call that is permitted by the component's state completes, and hand-overs between threads (give to take, put to get, release to lock, abort to release) happen without timeouts, polling or sleeping. Only destructors that release blocked callers pause for their documented grace period.",
 ["schedules","histories"],"every interleaving and history of every operation except destruction, with a clock that advances only when nothing else can run",
 "A time-out or poll that replaces a notification only makes a test slower; it passes.",
 [S,MX,RG,MP,MB],[("condition variable waits without timeouts","Semaphore::Imple::_take/_giveWait"),("notification on every hand-over","Semaphore::Imple::_give/_takeNotify/abort")],None,["virtual time elapsed when all callers have finished or are blocked"])
p("C34","User code run by the library holds up and corrupts nothing",
 "Constructors, destructors, dispatches, wake-up functions and priming or flushing functions may take any length of time, use the same pool or queue again (create, destroy, enqueue, dequeue, abort, query) and throw after that. Meanwhile other threads' operations on that component proceed as if the user code were not running, unless they wait for its capacity, its message or the dispatch lock it holds; nothing deadlocks, and capacity, contents and statistics stay right.",
 ["schedules","histories"],"every interleaving of user code that stays away, re-enters the component or throws, with every operation of other threads",
 "Tests run user code that returns at once and touches nothing; a lock held around it, or state shared by nested calls, goes unnoticed.",
 [OP,OD,BP,BD,MQ,MQC,MB,RG],[("construction and destruction outside the pool lock","ObjectPool::createObj, ObjectPoolDeleter, BlockPool::getBlock"),("construction, wake-up and destruction outside every lock","MessageQueue::put/emplace/getAndDispatch"),("priming without the semaphore","RingBufferGuardedBase::prime/abort")],None,["time and completion of the other threads' calls","capacity and statistics at the end"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
