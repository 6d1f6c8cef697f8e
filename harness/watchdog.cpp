// The watchdog under virtual time.
#include "mcsched.h"
#include <stdex/watchdog.hpp>
#include <atomic>
#include <chrono>
#include <thread>
using namespace std;
typedef chrono::steady_clock clk;
typedef chrono::milliseconds ms;
static const uint64_t MS = 1000000;

// Computation takes no time, time passes only while everyone waits: the number of callbacks is determined exactly.
MC_HARNESS(watchdog_timing)
{
	static const int T = 10;
	// Sleeps are chosen so that no sum of them hits a deadline exactly.
	static const int menu[] = { 0, 4, 7, 25 }; // 0: reset()
	size_t n = mc::thorough() ? 6 : 5;
	vector<int> s;
	for (size_t i = 0, k = mc::choose(n + 1); i < k; i++) s.push_back(mc::pick(menu));
	sched::Opt o; o.preempt = 1; o.spurious = mc::thorough() ? 2 : 1; o.job_at = 0;
	sched::run(o, [&] {
		int fired = 0, expect = 0; uint64_t t0 = sched::now(), end = 0;
		uint64_t deadline = t0 + T * MS; bool armed = true;
		{
			MC_HEAP(stdex::watchdog<clk>, wd, ms(T), [&] { ++fired; MC_LOG("callback at %d ms", (int)((sched::now() - t0) / MS)); });
			for (int x : s) {
				if (x) { MC_LOG("sleep %d", x); this_thread::sleep_for(ms(x)); }
				else { MC_LOG("reset at %d ms", (int)((sched::now() - t0) / MS)); wd.reset(); }
				uint64_t now = sched::now();
				if (armed && now >= deadline) { expect++; armed = false; }
				if (!x) { armed = true; deadline = now + T * MS; }
			}
			end = sched::now();
		}
		MC_CHECK(sched::now() == end, "watchdog-stop-slow", "stopping the watchdog takes %d ms", (int)((sched::now() - end) / MS));
		MC_CHECK(fired == expect, "watchdog-count", "callback ran %d times, %d periods were missed", fired, expect);
		mc::state(mc::hmix(mc::hash(s.data(), s.size() * 4), fired)); mc::outcome(mc::hmix(fired, sched::steps()));
	});
}

// Time may pass at any moment: safety only.
MC_HARNESS(watchdog_any_time)
{
	size_t resets = mc::choose(3);
	bool nested = mc::flip(); // the callback itself resets the watchdog
	sched::Opt o; o.preempt = mc::thorough() ? 4 : 3; o.spurious = 1; o.timeouts = mc::thorough() ? 3 : 2; o.job_at = 4;
	sched::run(o, [&] {
		int fired = 0, nr = 0; bool inside = false, alive = true;
		stdex::watchdog<clk>* self = nullptr; (void)self;
		{
			std::mutex mx;
			stdex::watchdog<clk>* p = nullptr;
			auto cb = [&] {
				std::lock_guard<std::mutex> g(mx);
				MC_CHECK(alive && !inside, "watchdog-callback", "callback runs at the wrong time");
				inside = true; ++fired;
				if (nested && p && fired < 3) { ++nr; p->reset(); }
				inside = false;
			};
			MC_HEAP(stdex::watchdog<clk>, wd, ms(10), cb);
			{ std::lock_guard<std::mutex> g(mx); p = &wd; }
			for (size_t i = 0; i < resets; i++) { wd.reset(); std::lock_guard<std::mutex> g(mx); ++nr; }
		}
		alive = false;
		MC_CHECK(fired <= 1 + nr, "watchdog-extra", "callback ran %d times with %d resets", fired, nr);
		mc::state(fired * 16 + nr); mc::outcome(mc::hmix(fired * 16 + nr, sched::steps()));
	});
}

// A reset during a slow callback re-arms the watchdog.
MC_HARNESS(watchdog_slow_callback)
{
	int cb = (int)mc::choose(2) ? 30 : 3;           // duration of the callback [ms]
	int when = 11 + (int)mc::choose(5) * 4;         // reset at (may fall into the callback)
	static const int after[] = { 3, 9, 16, 45 }; int stop = when + mc::pick(after);
	sched::Opt o; o.preempt = 2; o.spurious = 1; o.job_at = 1;
	sched::run(o, [&] {
		int fired = 0; uint64_t t0 = sched::now(), last = 0;
		{
			MC_HEAP(stdex::watchdog<clk>, wd, ms(10), [&] { ++fired; last = sched::now(); this_thread::sleep_for(ms(cb)); });
			this_thread::sleep_for(ms(when));
			wd.reset();
			this_thread::sleep_until(clk::time_point(chrono::nanoseconds(t0 + stop * MS)));
		}
		// First period missed at 10; re-armed when the reset is seen: at `when`, or when the callback returns.
		uint64_t rearmed = max<uint64_t>(when, 10 + cb), again = rearmed + 10;
		int expect = 1 + ((uint64_t)stop > again ? 1 : 0);
		if ((uint64_t)stop != again) MC_CHECK(fired == expect, "watchdog-rearm", "callback ran %d times, expected %d (reset at %d, stop at %d)", fired, expect, when, stop);
		mc::state(fired); mc::outcome(mc::hmix(fired, sched::steps()));
	});
}

// However many resets arrive in a period, the last one counts.
MC_HARNESS(watchdog_many_resets)
{
	static const int counts[] = { 1, 2, 15, 16, 127, 128, 255, 256, 257, 512, 32768, 65535, 65536, 65537 };
	int n = mc::pick(counts); size_t periods = 1 + mc::choose(3); bool missed = mc::flip();
	sched::Opt o; o.preempt = 0; o.order = 0; o.max_steps = 4000000;
	sched::run(o, [&] {
		std::atomic<int> fired{ 0 };
		{
			MC_HEAP(stdex::watchdog<clk>, wd, ms(10), [&] { ++fired; });
			this_thread::sleep_for(ms(1)); // it waits now
			for (size_t i = 0; i < periods; i++) {
				this_thread::sleep_for(ms(7));
				for (int k = 0; k < n; k++) wd.reset();
				MC_CHECK(!fired, "watchdog-early", "the callback runs though %d resets arrive in every period", n);
			}
			this_thread::sleep_for(ms(9));
			MC_CHECK(!fired, "watchdog-early", "the callback runs %d ms after the last of %d resets", 9, n);
			if (missed) {
				this_thread::sleep_for(ms(3)); MC_CHECK(fired == 1, "watchdog-late", "the callback ran %d times 12 ms after the last of %d resets", (int)fired, n);
				for (int k = 0; k < n; k++) wd.reset();
				this_thread::sleep_for(ms(12)); MC_CHECK(fired == 2, "watchdog-rearm", "%d resets do not arm the watchdog again", n);
			}
		}
		mc::state(mc::hmix((uint64_t)n, periods * 2 + missed)); mc::outcome(mc::hmix((uint64_t)n, sched::steps())); mc::nontrivial(); mc::transition((uint64_t)n);
	});
}
