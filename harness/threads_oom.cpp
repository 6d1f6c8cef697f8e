// U10: memory or threads run out where threads are started; every schedule of what goes on then.
#include "mcsched.h"
#include "common.h"
#include <stdex/pool.hpp>
#include <stdex/progress.hpp>
#include <stdex/ring.hpp>
#include <stdex/stream.hpp>
#include <stdex/vector_queue.hpp>
#include <stdex/watchdog.hpp>
#include <chrono>
#include <new>
#include <stdlib.h>
#include <system_error>
#include <thread>
using namespace std;
using namespace stdex::stream;

static bool g_armed; static int g_refused;
static bool refused(const char* what)
{
	if (!g_armed || sched::inside() || sched::warmup()) return false;
	bool was = g_armed; g_armed = false;
	size_t c = mc::choose_dev(2);
	if (c) { g_refused++; MC_LOG("    %s is refused", what); }
	g_armed = was;
	return c != 0;
}
void* operator new(size_t n) { if (refused("an allocation")) throw bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
struct arm { arm() { g_armed = true; g_refused = 0; } ~arm() { g_armed = false; } };
static bool refuse_thread() { return refused("a thread"); }
static void begin() { sched::refuse_thread = refuse_thread; g_armed = false; g_refused = 0; mc::set_deviation_bound(mc::thorough() ? 2 : 1); }
static sched::Opt opt(int q, int t) { sched::Opt o; o.preempt = mc::thorough() ? t : q; o.spurious = 0; o.job_at = 3; return o; }
// Runs f with what it asks for refused; says whether it succeeded.
template <class F> static bool attempt(const char* what, F f)
{
	try { arm a; f(); }
	catch (const bad_alloc&) { MC_LOG("%s: out of memory", what); MC_CHECK(g_refused, "oom-exception", "%s: claims there is no memory", what); return false; }
	catch (const system_error& e) { MC_LOG("%s: %s", what, e.what()); MC_CHECK(g_refused && e.code() == errc::resource_unavailable_try_again, "oom-exception", "%s: fails with %s", what, e.what()); return false; }
	MC_CHECK(!g_refused, "oom-unreported", "%s: what it asked for was refused, and nothing says so", what);
	return true;
}

// Sinks added while there is no memory or no thread: those that got in are written to, the others are not.
MC_HARNESS(replicator_oom)
{
	size_t sinks = 1 + mc::choose(3); bool removes = mc::flip();
	begin();
	sched::run(opt(sinks == 1 ? 2 : 1, sinks < 3 ? 2 : 1), [&] {
		size_t live = sched::live_blocks();
		{
			vector<unique_ptr<memory_file>> f; for (size_t i = 0; i < sinks; i++) f.emplace_back(new memory_file(8));
			vector<size_t> in; vector<string> want(sinks);
			size_t held = 0; (void)held;
			{
				MC_HEAP(replicator, r);
				auto write = [&](const char* d) {
					size_t n = r.write(d, strlen(d));
					MC_CHECK(n == strlen(d) && r.ok(), "replicator-count", "write(%zu) returns %zu, state %s", strlen(d), n, st_name(r.state()));
					for (size_t i : in) want[i] += d;
				};
				for (size_t i = 0; i < sinks; i++) {
					if (attempt("adding a stream", [&] { r.push_back(f[i].get()); })) in.push_back(i);
					write("ab");
				}
				r.flush(); MC_CHECK(r.ok(), "replicator-state", "flush leaves state %s", st_name(r.state()));
				if (removes) { r.remove(f[0].get()); if (!in.empty() && !in[0]) in.erase(in.begin()); write("c"); }
			}
			for (size_t i = 0; i < sinks; i++) {
				string got((const char*)f[i]->data(), (size_t)f[i]->size());
				MC_CHECK(got == want[i], "replicator-data", "stream %zu gets %s, expected %s", i, got.c_str(), want[i].c_str());
			}
			mc::outcome(mc::hmix(in.size(), sinks)); mc::state(mc::hmix(in.size() * 16 + sinks, sched::steps()));
		}
		MC_CHECK(sched::threads_done(), "thread-left", "a thread is left running");
		MC_CHECK(sched::live_blocks() == live, "oom-leak", "%zu allocations are never released", sched::live_blocks() - live);
	});
}

MC_HARNESS(async_oom)
{
	size_t len = mc::choose(3) * 3; bool writer = mc::flip(), again = mc::flip();
	begin();
	sched::run(opt(3, 4), [&] {
		size_t live = sched::live_blocks();
		{
			bytes all = pattern(len);
			MC_HEAP(short_source, src, all);
			MC_HEAP(short_sink, snk, false);
			bool done = false;
			for (int i = 0; i < 1 + again && !done; i++)
				if (writer) done = attempt("a write-back stream", [&] {
					unique_ptr<async_writer<2>> w(new async_writer<2>(snk));
					g_armed = false;
					MC_CHECK(w->write(all.data(), len) == len && w->ok(), "awriter-count", "write() falls short");
					w->flush(); MC_CHECK(w->ok() && snk.data == all, "awriter-data", "sink gets %s", show(snk.data).c_str());
				});
				else done = attempt("a read-ahead stream", [&] {
					unique_ptr<async_reader<2>> r(new async_reader<2>(src));
					g_armed = false;
					bytes got(len + 1); size_t n = r->read(got.data(), got.size()); got.resize(n);
					MC_CHECK(got == all, "areader-data", "reads %s", show(got).c_str());
				});
			if (!done) MC_CHECK(snk.data.empty(), "awriter-data", "sink gets %s", show(snk.data).c_str());
			mc::outcome(done); mc::state(mc::hmix(done * 16 + len, sched::steps()));
		}
		MC_CHECK(sched::threads_done(), "thread-left", "a thread is left running");
		MC_CHECK(sched::live_blocks() == live, "oom-leak", "%zu allocations are never released", sched::live_blocks() - live);
	});
}

MC_HARNESS(watchdog_oom)
{
	bool late = mc::flip(); int weight = (int)mc::choose(2);
	begin();
	sched::run(opt(3, 4), [&] {
		typedef chrono::steady_clock clk; typedef chrono::milliseconds ms;
		size_t live = sched::live_blocks();
		{
			MC_HEAP(int, fired, 0);
			struct heavy { int* n; char pad[64]; void operator()() const { ++*n; } };
			function<void()> cb; if (weight) cb = heavy{ &fired, {} }; else cb = [&fired] { ++fired; };
			bool done = attempt("a watchdog", [&] {
				unique_ptr<stdex::watchdog<clk>> wd(new stdex::watchdog<clk>(ms(10), cb));
				g_armed = false;
				if (late) this_thread::sleep_for(ms(15));
			});
			if (!done) this_thread::sleep_for(ms(15));
			MC_CHECK(fired == (done && late), "watchdog-count", "callback ran %d times", fired);
			mc::outcome(done * 2 + late); mc::state(mc::hmix(done * 2 + late, sched::steps()));
		}
		MC_CHECK(sched::threads_done(), "thread-left", "a thread is left running");
		MC_CHECK(sched::live_blocks() == live, "oom-leak", "%zu allocations are never released", sched::live_blocks() - live);
	});
}
