from . import prop

TECH = ("stateless model checking of the real code under a controlled scheduler: every schedule up to a preemption bound "
        "(plus spurious wake-ups and timer expiry), happens-before race detection on each")
NOTE = ("Schedules are sequentially consistent interleavings at synchronisation operations; weaker behaviours of relaxed atomics show only as races.")
ASSUME = ["interleavings are sequentially consistent; unordered plain accesses are reported as races rather than explored",
          "pthread mutexes, conditions, rwlocks, sleeping and clocks are the scheduler's models of the POSIX ones"]
def conc(*a, **k):
    k.setdefault("technique", TECH); k.setdefault("note", NOTE); k.setdefault("assumptions", ASSUME)
    prop(*a, **k)

conc("C01", "Ring buffer delivers every element once, in order", """
    Between one sending and one receiving thread, everything pushed into the ring buffer comes out exactly once and in order, whatever portions either side uses.
    Space and data offered never exceed what is really free or filled, accesses to elements are ordered between the threads, and neither side blocks while it could go on.""",
    "schedules inputs", "all interleavings up to the preemption bound x portion sizes x capacities 1, 2, 3 and 5",
    "The suite runs one free-running transfer; a lost wake-up or an overwritten element needs a particular interleaving with a full or empty wrap-around.",
    ["ring.hpp"], [("back/push/front/pop", "ring.hpp:class ring")], ["elements received", "deadlock detection", "race detection"],
    [dict(src="ring.cpp", kind="sched", harnesses=["ring_delivery_1", "ring_delivery_2", "ring_delivery_3", "ring_delivery_5", "ring_large"])], "model_checking",
    "one execution = one schedule; states = distinct sequences of portions seen by the receiver", "3/5 preemptions, 1 spurious wake-up, 3..8 elements")
conc("C02", "Ring buffer shutdown and sync wake everyone and lose nothing", """
    After quit is requested, blocked and later calls on the sending side report it, the receiving side still gets everything pushed before and only then reports it, and no call blocks any more.
    A sync returns only once everything pushed before has been consumed (or quit was requested), also while another thread waits for space.""",
    "schedules", "all interleavings up to the preemption bound of sender, receiver, and threads that quit or sync",
    "The suite has two threads and one orderly shutdown; lost wake-ups need three threads and particular timing.",
    ["ring.hpp"], [("quit/sync", "ring.hpp:class ring")], ["results of back/front/sync", "deadlock detection"],
    [dict(src="ring.cpp", kind="sched", harnesses=["ring_sync", "ring_quit", "ring_two_waiters"])], "model_checking",
    "one execution = one schedule; states = distinct (sent, received, left) results", "3 threads, up to 4: 1..3/2..5 preemptions, 1 spurious wake-up")
conc("C03", "Concurrent pool operations hand out every item exactly once", """
    When threads push to, pop from and clear a pool concurrently, the results are those of some order of the calls: each pushed item is popped at most once, from the node it was pushed to, and nothing is lost.
    An empty result appears only if the node's pool could be empty at that moment.""",
    "schedules histories", "all operation assignments to 2 and 3 threads on two nodes x all interleavings up to the preemption bound",
    "The suite uses the pool from threads without checking conservation; races on the node map need first use of a node from two threads at once.",
    ["pool.hpp", "spinlock.hpp"], [("push/pop/clear", "pool.hpp:class pool")], ["items popped (linearizability check)", "race detection"],
    [dict(src="pool.cpp", kind="sched", harnesses=["pool_two_threads", "pool_three_threads", "pool_two_threads_long", "pool_default_node", "pool_many"])], "model_checking",
    "one execution = one schedule of one script assignment; states = distinct histories of results", "2 threads x 2/3 operations, 3 threads x 1; 2..4/4..7 preemptions")
conc("C04", "Spinlock gives mutual exclusion and makes writes visible", """
    At most one thread holds the lock; everything written while holding it is visible to the next holder; trying a free lock succeeds and trying a held one fails without blocking.
    Waiting threads get the lock once it is free.""",
    "schedules", "all interleavings up to the preemption bound of 2 and 3 threads mixing blocking and non-blocking acquisition",
    "Never tested directly; weak memory orders or a lost release show only under contention and race analysis.",
    ["spinlock.hpp"], [("lock/try_lock/unlock", "spinlock.hpp:class spinlock")], ["critical-section counters", "happens-before race detection honouring memory orders"],
    [dict(src="pool.cpp", kind="sched", harnesses=["spinlock_two_threads", "spinlock_three_threads"])], "model_checking",
    "one execution = one schedule; states = distinct distributions of successful acquisitions", "2 threads x 2 with 5/6 preemptions, 3 threads x 1 with 3/4")
conc("C05", "Watchdog fires once per missed period and only then", """
    The callback runs exactly once when no reset arrives within the timeout, not again until a reset re-arms it, and never while resets arrive in time.
    Stopping the watchdog waits for a running callback but not for the timeout, and no callback runs after that.""",
    "schedules histories", "all scripts of resets and pauses up to the bound under virtual time, with spurious wake-ups; all interleavings with arbitrary timer expiry up to the bound",
    "The suite sleeps through one script in real time.",
    ["watchdog.hpp"], [("run/reset", "watchdog.hpp:class watchdog")], ["number and time of callbacks"],
    [dict(src="watchdog.cpp", kind="sched")], "model_checking",
    "one execution = one script and schedule; states = distinct (script, number of callbacks)", "scripts of up to 5/6 steps, 1/2 spurious wake-ups; 3/4 preemptions with 2/3 early expirations")
conc("C06", "Read-ahead delivers the source's bytes and its end", """
    Reading through the read-ahead stream yields exactly the source's bytes in order and then the source's own end-of-file or error state, whatever the thread timing and the source's short reads.
    It takes no more than its capacity ahead of the reader, destroying it early neither hangs nor leaves its thread behind, and source and reader never race.""",
    "schedules fault_sequences", "all interleavings up to the preemption bound x source lengths, short reads and endings x read sizes x capacities",
    "The suite copies one large file with free-running threads; the end-of-data hand-over needs particular interleavings.",
    ["stream.hpp", "ring.hpp"], [("async_reader", "stream.hpp:class async_reader")], ["bytes and state of the reader", "position of the source", "race detection"],
    [dict(src="async.cpp", kind="sched", harnesses=["async_reader_1", "async_reader_2", "async_reader_3", "async_reader_large"])], "model_checking",
    "one execution = one schedule; states = distinct (length, delivered, taken, state)", "capacities 1..3, sources of 0..5 bytes, 3/4 preemptions, 1 spurious wake-up, 1/2 short reads")
conc("C07", "Write-back delivers everything and reports failed writes", """
    Everything accepted by the write-back stream reaches the sink in order; a flush or close that reports success means all of it is there, and destruction delivers the rest.
    If the sink fails in the background, no later flush or close claims success for bytes that are missing, writes start failing, nothing hangs, and sink and writer never race.""",
    "schedules fault_sequences", "all scripts of writes, flushes and close up to the bound x all placements of a sink failure x all interleavings up to the preemption bound",
    "The suite never lets the sink fail and never flushes concurrently.",
    ["stream.hpp", "ring.hpp"], [("async_writer", "stream.hpp:class async_writer")], ["content of the sink", "state after write/flush/close", "race detection"],
    [dict(src="async.cpp", kind="sched", harnesses=["async_writer_1", "async_writer_2", "async_writer_4", "async_writer_forgetful_sink", "async_writer_large"])], "model_checking",
    "one execution = one script and schedule; states = distinct (sink content, accepted, outcome)", "capacities 1, 2, 4, up to 3/4 operations, 3/4 preemptions, 1 failure")
conc("C08", "Replicator gives every attached stream the same operations", """
    When a write, flush or close on the replicator returns, every attached stream has received exactly that operation with exactly that data, once; the result is the least count any of them took and a failing state if any of them failed.
    Streams added take part from then on and removed ones no more, and no call hangs or leaves a thread behind.""",
    "schedules histories fault_sequences", "all operation sequences up to the bound with 1..3 attached streams x a failing stream x all interleavings up to the preemption bound",
    "The suite writes to three healthy files once.",
    ["stream.hpp"], [("replicator", "stream.hpp:class replicator")], ["content and call counts of the attached streams", "race detection"],
    [dict(src="async.cpp", kind="sched", harnesses=["replicator_one", "replicator_two", "replicator_spurious_one", "replicator_spurious_two", "replicator_large"])], "model_checking",
    "one execution = one script and schedule; states = distinct contents of the attached streams", "3 operations on one stream (1/2 preemptions), 2 on two (1/2), and 1 spurious wake-up with 2 and 1 operations")
conc("C09", "Aggregated progress ends at the workers' combined state", """
    Whatever the timing of the workers, the host of an aggregated progress indicator is called by one thread at a time and, when the workers are done, shows the sum of their values and ranges.
    A host attached meanwhile shows the same; a detached host is not called any more.""",
    "schedules", "all scripts of range and value updates by 2 and 3 workers x attach/detach x all interleavings up to the preemption bound",
    "Not tested at all.",
    ["progress.hpp"], [("aggregate_progress", "progress.hpp:class aggregate_progress")], ["last values the host was given", "race detection in the host"],
    [dict(src="progress.cpp", kind="sched", harnesses=["aggregate_two", "aggregate_long", "aggregate_three", "aggregate_ranges", "aggregate_many"])], "model_checking",
    "one execution = one script and schedule; states = distinct (value, range, calls) at the host", "2 workers x 2 updates with 2/4 preemptions, 4+1 with 1/2, 3 x 1 with 2/3")
conc("C10", "Progress wrappers show what they promise", """
    A rate-limited indicator shows the ends of the range always and other changes at most once per period; a deadline indicator cancels after its deadline, not before, or when its host does; a section maps its local range linearly into its part of the host's range.
    A switcher puts the original indicator back.""",
    "histories inputs", "all sequences of values and pauses up to the bound under virtual time; all small ranges, sections and values, sizes around powers of two up to the greatest of each type in all combinations",
    "Not tested at all; depends on time.",
    ["progress.hpp"], [("lazy_progress", "progress.hpp:class lazy_progress"), ("timeout_progress", "progress.hpp:class timeout_progress"), ("global_progress", "progress.hpp:class global_progress")],
    ["what the host is told and when"],
    [dict(src="progress.cpp", kind="sched", harnesses=["lazy_progress_rate", "timeout_progress_deadline", "global_progress_sections", "global_progress_large"])], "exploration",
    "one execution = one script; distinct_nontrivial counts distinct observed results", "5/6 steps over 4 values and 2 pauses; all combinations of small ranges",
    technique="exhaustive enumeration of scripts under virtual time on the real classes")
