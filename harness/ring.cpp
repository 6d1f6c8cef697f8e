// The ring buffer between threads, all schedules up to the preemption bound.
#include "mcsched.h"
#include <stdex/ring.hpp>
#include <memory>
#include <thread>
#include <stdio.h>
using namespace std;
static sched::Opt opt(int q = 3, int t = 5) { sched::Opt o; o.preempt = mc::thorough() ? t : q; o.spurious = 1; return o; }

// The harness's own look at a variable of another thread.
__attribute__((no_sanitize("thread"), noinline)) static int peek(const int& v) { return *(const volatile int*)&v; }

template <size_t N> static void delivery(int total)
{
	size_t maxput = 1 + mc::choose(3), maxget = 1 + mc::choose(3);
	int end = (int)mc::choose(3); // 0: sync(), the receiver counts; 1: quit() after the last element; 2: sync(), then quit()
	sched::run(opt(), [&] {
		typedef stdex::ring<int, N> ring_t; MC_HEAP(ring_t, r);
		vector<int> got;
		uint64_t h = 7;
		thread rx([&] {
			while (end || (int)got.size() < total) {
				int* p; size_t n;
				tie(p, n) = r.front();
				if (!p) break;
				MC_CHECK(n >= 1 && n <= N, "ring-front-size", "front() offers %zu of %zu", n, N);
				h = mc::hmix(h, n);
				n = min(n, maxget);
				for (size_t i = 0; i < n; i++) got.push_back(p[i]);
				MC_LOG("receiver takes %zu", n);
				r.pop(n);
				mc::state(h);
			}
			if (end) { // nothing may turn up after the end
				int* p; size_t n;
				tie(p, n) = r.front();
				MC_CHECK(!p && !n, "ring-front-after-end", "front() offers %zu after the end", n);
			}
		});
		for (int next = 0; next < total;) {
			int* p; size_t n;
			tie(p, n) = r.back();
			MC_CHECK(p && n >= 1 && n <= N, "ring-back-size", "back() offers %zu of %zu before quit", n, N);
			n = min(min(n, maxput), (size_t)(total - next));
			for (size_t i = 0; i < n; i++) p[i] = 100 + next++;
			MC_LOG("sender puts %zu", n);
			r.push(n);
		}
		if (end != 1) {
			r.sync();
			// Everything has been consumed: the whole ring is free again, so no back() may block.
			int* p; size_t n;
			tie(p, n) = r.back();
			MC_CHECK(p && n, "ring-sync-empty", "no space after sync()");
		}
		if (end) r.quit();
		rx.join();
		MC_CHECK((int)got.size() == total, "ring-delivery", "%d sent, %zu received", total, got.size());
		for (int i = 0; i < total; i++) MC_CHECK(got[i] == 100 + i, "ring-order", "element %d arrives as %d", i, got[i] - 100);
		mc::outcome(mc::hmix(h, sched::steps()));
	});
}
MC_HARNESS(ring_delivery_1) { delivery<1>(3); }
MC_HARNESS(ring_delivery_2) { delivery<2>(4); }
MC_HARNESS(ring_delivery_3) { delivery<3>(5); }
MC_HARNESS(ring_delivery_5) { delivery<5>(8); }

// sync() returns only once everything pushed before it has been consumed.
MC_HARNESS(ring_sync)
{
	size_t batches = 1 + mc::choose(2), maxget = 1 + mc::choose(2);
	sched::run(opt(), [&] {
		typedef stdex::ring<int, 2> ring_t; MC_HEAP(ring_t, r);
		int consumed = 0;    // only touched by the receiver before pop(), read after sync(): ordered by it
		int pushed = 0;
		thread rx([&] {
			for (;;) {
				int* p; size_t n;
				tie(p, n) = r.front();
				if (!p) break;
				n = min(n, maxget);
				consumed += (int)n;
				r.pop(n);
			}
		});
		for (size_t b = 0; b < batches; b++) {
			for (int k = 0; k < 2; k++) {
				int* p; size_t n;
				tie(p, n) = r.back();
				MC_CHECK(p && n, "ring-back-size", "back() offers nothing before quit");
				*p = 1; r.push(1); pushed++;
			}
			r.sync();
			MC_CHECK(consumed == pushed, "ring-sync", "sync() returns with %d of %d consumed", consumed, pushed);
			mc::state(mc::hmix(b, consumed));
		}
		r.quit();
		rx.join();
		mc::outcome(sched::steps());
	});
}

// quit() from a third thread: everyone comes back, nothing pushed before is lost to the receiver.
MC_HARNESS(ring_quit)
{
	int total = 1 + (int)mc::choose(4); // more than fits, or less
	bool third_syncs = mc::flip();
	bool receiving = mc::flip(); // otherwise nobody ever takes anything
	sched::run(opt(3, 5), [&] {
		typedef stdex::ring<int, 2> ring_t; MC_HEAP(ring_t, r);
		vector<int> got;
		int sent = 0, before = 0; bool told = false;
		thread tx([&] {
			while (sent < total) {
				int* p; size_t n;
				tie(p, n) = r.back();
				if (!p) { MC_CHECK(!n, "ring-quit-size", "back() offers %zu elements without a pointer", n); told = true; return; }
				*p = 100 + sent; r.push(1); sent++;
			}
			if (third_syncs) r.sync();
		});
		thread rx([&] {
			while (receiving) {
				int* p; size_t n;
				tie(p, n) = r.front();
				if (!p) {
					MC_CHECK(!n, "ring-quit-size", "front() offers %zu elements without a pointer", n);
					MC_CHECK((int)got.size() >= before, "ring-quit-lost", "front() reports the end with %zu received and %d sent before quit()", got.size(), before);
					return;
				}
				got.push_back(*p);
				r.pop(1);
			}
		});
		sched::point();
		before = peek(sent);
		r.quit();
		int* p; size_t n;
		tie(p, n) = r.back();
		MC_CHECK(!p && !n, "ring-back-after-quit", "back() offers %zu elements after quit()", n);
		r.sync(); // must not block after quit()
		tx.join(); rx.join();
		// The receiver ends when it finds the ring empty; the sender may have pushed what it was granted before quit().
		MC_CHECK((int)got.size() <= sent, "ring-delivery", "%d sent, %zu received", sent, got.size());
		tie(p, n) = r.front();
		int left = 0;
		while (p) { left += (int)n; for (size_t i = 0; i < n; i++) got.push_back(p[i]); r.pop(n); tie(p, n) = r.front(); }
		MC_CHECK((int)got.size() == sent, "ring-quit-lost", "%d sent, %zu received and left", sent, got.size());
		for (int i = 0; i < sent; i++) MC_CHECK(got[i] == 100 + i, "ring-order", "element %d arrives as %d", i, got[i] - 100);
		mc::state(mc::hmix(sent, mc::hmix(left, told)));
		mc::outcome(mc::hmix(sent * 10 + left, sched::steps()));
	});
}

// A sender blocked on a full ring and another thread waiting for the ring to flush: both must be woken when due.
MC_HARNESS(ring_two_waiters)
{
	size_t waiters = 1 + mc::choose(2);
	sched::run(opt(1, 2), [&] {
		typedef stdex::ring<int, 2> ring_t; MC_HEAP(ring_t, r);
		int consumed = 0;
		{ auto b = r.back(); get<0>(b)[0] = 1; get<0>(b)[1] = 2; r.push(2); }
		thread tx([&] {
			for (int i = 0; i < 2; i++) {
				int* p; size_t n;
				tie(p, n) = r.back();
				MC_CHECK(p && n, "ring-back-size", "back() offers nothing before quit");
				*p = 3 + i; r.push(1);
			}
		});
		vector<thread> sy;
		for (size_t i = 0; i < waiters; i++) sy.emplace_back([&] { r.sync(); });
		while (consumed < 4) {
			int* p; size_t n;
			tie(p, n) = r.front();
			MC_CHECK(p && n && *p == consumed + 1, "ring-order", "wrong element");
			consumed++; r.pop(1);
		}
		tx.join();
		for (auto& t : sy) t.join();
		mc::state(sched::steps()); mc::outcome(sched::steps());
	});
}

// Rings of any size: one thread after the other fills and empties them through every kind of pieces, several times around.
namespace {
	template <size_t N> void large()
	{
		static const size_t div[] = { 1, 2, 3, 7 };
		size_t put = N / mc::pick(div) + mc::choose(2), get = N / mc::pick(div) + mc::choose(2); bool full = mc::flip();
		sched::Opt o; o.preempt = 0; o.job_at = 0;
		sched::run(o, [&] {
			typedef stdex::ring<uint32_t, N> ring_t; MC_HEAP(ring_t, r);
			uint32_t in = 0, out = 0, total = (uint32_t)(N * 3 + 5); uint64_t h = 1;
			while (out < total) {
				for (bool once = true; in < total && in - out < N && (once || full); once = false) {
					uint32_t* p; size_t n; tie(p, n) = r.back();
					size_t e = min(N - in % N, N - (in - out));
					MC_CHECK(n == e, "ring-back-size", "back() of %zu with %u inside offers %zu, expected %zu", N, in - out, n, e);
					n = min(min(n, put), (size_t)(total - in));
					for (size_t i = 0; i < n; i++) p[i] = in++ * 2654435761u;
					r.push(n); mc::transition();
				}
				for (bool once = true; out < in && (once || full); once = false) {
					uint32_t* p; size_t n; tie(p, n) = r.front();
					size_t e = min(N - out % N, (size_t)(in - out));
					MC_CHECK(n == e, "ring-front-size", "front() of %zu with %u inside offers %zu, expected %zu", N, in - out, n, e);
					n = min(n, get);
					for (size_t i = 0; i < n; i++, out++) MC_CHECK(p[i] == out * 2654435761u, "ring-order", "element %u of a ring of %zu is wrong", out, N);
					r.pop(n); mc::transition();
				}
				h = mc::hmix(h, in - out);
			}
			r.sync();
			mc::state(h); mc::outcome(h); mc::nontrivial();
		});
	}
}
MC_HARNESS(ring_large)
{
	switch (mc::choose(11)) {
	case 0: large<8>(); break;
	case 1: large<16>(); break;
	case 2: large<17>(); break;
	case 3: large<24>(); break;
	case 4: large<100>(); break;
	case 5: large<256>(); break;
	case 6: large<257>(); break;
	case 7: large<1000>(); break;
	case 8: large<65536>(); break;
	case 9: large<65537>(); break;
	case 10: large<200000>(); break;
	}
}
