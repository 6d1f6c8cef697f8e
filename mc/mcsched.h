// Controlled scheduler: runs the threads of the code under test as fibers of one OS thread and asks mc::choose() which
// one goes on at every synchronisation operation. The code under test is compiled with -fsanitize=thread, whose hooks
// (here, not the real runtime) give the atomics as scheduling points and all memory accesses to a happens-before race
// and lifetime detector. pthread mutexes, conditions, rwlocks, threads, sleeping and the clock are interposed.
#pragma once
#include "mc.h"
#include <functional>
#include <memory>

namespace sched {
	struct Opt {
		int preempt = 2;       // switches away from a thread that could go on
		int spurious = 0;      // condition waits that may return without a notification
		int timeouts = 0;      // timed waits that may expire although other threads could still run
		                       // (they may always expire, earliest first, when nothing else can run)
		int job_at = 5;        // scheduling decisions that make up a job prefix
		int order = -1;        // a single schedule: of the threads that can go on 0: the first, 1: the last, 2: the next one (for tests of sizes)
		size_t max_steps = 20000;
	};
	// Runs the body as thread 0 (twice the first time in a process: a warm-up under the default schedule initialises
	// what is initialised lazily, and is not judged). Everything the body changes must be its own.
	void run(const Opt& o, const std::function<void()>& body);
	bool warmup();
	void point();              // a scheduling point
	uint64_t now();            // virtual time [ns]
	int self();                // id of the running thread
	size_t steps();
	size_t live_blocks();      // allocations made by the body and not released yet
	bool threads_done();       // all threads but the calling one have ended
	extern bool (*refuse_thread)(); // says whether to refuse starting a thread (EAGAIN)
	bool inside();             // in the scheduler or outside of run()
}
// Objects that threads share live on the heap: clang does not instrument all accesses to those on the stack.
#define MC_HEAP(type, name, ...) auto name##_box = std::unique_ptr<type>(new type{__VA_ARGS__}); auto& name = *name##_box
