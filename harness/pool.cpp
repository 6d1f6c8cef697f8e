// Per-NUMA pool shared by threads; spinlock.
#include "mcsched.h"
#include "lin.h"
#include <stdex/pool.hpp>
#include <stdex/spinlock.hpp>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
using namespace std;

struct item { // move-only, zero is "no item"
	int v = 0;
	item() {}
	explicit item(int x) : v(x) {}
	item(item&& o) : v(o.v) { o.v = 0; }
	item& operator=(item&& o) { v = o.v; if (&o != this) o.v = 0; return *this; }
};
struct op_t { char k; int numa; int v; }; // p: push v, g: pop -> v, c: clear
struct bag { // any item of the node may come out; nothing comes out only of an empty node
	multiset<int> b[2];
	bool apply(const op_t& o)
	{
		switch (o.k) {
		case 'p': b[o.numa].insert(o.v); return true;
		case 'g': if (!o.v) return b[o.numa].empty(); { auto i = b[o.numa].find(o.v); if (i == b[o.numa].end()) return false; b[o.numa].erase(i); return true; }
		default: b[0].clear(); b[1].clear(); return true;
		}
	}
};
typedef vector<event<op_t>> hist;

// The bookkeeping clock is shared but only advanced by the running fiber; it is kept out of the race detector.
#define NOTSAN __attribute__((no_sanitize("thread"), disable_sanitizer_instrumentation))
static uint64_t g_clk;
NOTSAN static uint64_t stamp() { return ++g_clk; }

template <size_t TH> static void pool_case(size_t per, bool clears)
{
	// Every thread runs a short script of operations on colliding nodes.
	struct scr { char k; int numa; };
	static const scr menu[] = { { 'p', 0 }, { 'g', 0 }, { 'p', 1 }, { 'g', 1 }, { 'c', 0 } };
	size_t M = clears ? 5 : 4;
	vector<vector<scr>> s(TH);
	size_t initial = mc::choose(2);
	for (size_t t = 0; t < TH; t++) for (size_t i = 0; i < per; i++) s[t].push_back(menu[mc::choose(M)]);
	sched::Opt o; o.preempt = mc::thorough() ? (TH > 2 ? 4 : 5) : (TH > 2 ? 2 : 3); o.job_at = 0;
	sched::run(o, [&] {
		MC_HEAP(stdex::pool<item>, p);
		g_clk = 0;
		vector<event<op_t>> h[8];
		if (initial) { p.push(item(1), 0); }
		auto body = [&](size_t t) {
			int v = 10 * (int)(t + 1);
			for (auto& x : s[t]) {
				op_t q = { x.k, x.numa, ++v };
				uint64_t inv = stamp();
				if (x.k == 'p') { item i(v); p.push(std::move(i), x.numa); }
				else if (x.k == 'g') q.v = p.pop(x.numa).v;
				else p.clear();
				h[t].push_back({ q, inv, stamp() });
				MC_LOG("thread %d: %c node %d -> %d", sched::self(), x.k, x.numa, q.v);
			}
		};
		vector<thread> ts;
		for (size_t t = 1; t < TH; t++) ts.emplace_back(body, t);
		body(0);
		for (auto& t : ts) t.join();
		vector<event<op_t>> all;
		if (initial) all.push_back({ { 'p', 0, 1 }, 0, 0 });
		for (size_t t = 0; t < TH; t++) all.insert(all.end(), h[t].begin(), h[t].end());
		// Drain: what is left must be what the history leaves.
		for (int n = 0; n < 2; n++)
			for (;;) {
				op_t q = { 'g', n, 0 };
				uint64_t inv = stamp();
				q.v = p.pop(n).v;
				all.push_back({ q, inv, stamp() });
				if (!q.v) break;
			}
		uint64_t x = 3;
		for (auto& e : all) x = mc::hmix(x, e.op.v * 256 + e.op.k);
		mc::state(x); mc::outcome(x);
		if (!linearizable(all, 0, bag())) {
			string d;
			for (auto& e : all) d += mc::str(" [%d-%d] %s node %d %d;", (int)e.inv, (int)e.res, e.op.k == 'p' ? "push" : e.op.k == 'g' ? "pop" : "clear", e.op.numa, e.op.v);
			mc::fail("pool-history", "no order of the calls explains:%s", d.c_str());
		}
	});
}
MC_HARNESS(pool_two_threads) { pool_case<2>(2, true); }
MC_HARNESS(pool_three_threads) { pool_case<3>(1, true); }
MC_HARNESS(pool_two_threads_long) { pool_case<2>(mc::thorough() ? 3 : 2, false); }

// Default node: push and pop without naming one.
MC_HARNESS(pool_default_node)
{
	sched::Opt o; o.preempt = mc::thorough() ? 7 : 4; o.job_at = 3;
	sched::run(o, [&] {
		MC_HEAP(stdex::pool<unique_ptr<int>>, p);
		int got[2] = { 0, 0 };
		auto f = [&](int t) { p.push(unique_ptr<int>(new int(t + 1))); auto r = p.pop(); MC_CHECK(!!r, "pool-lost", "pop() finds nothing after an own push()"); got[t] = *r; };
		thread a(f, 1); f(0); a.join();
		MC_CHECK(got[0] != got[1], "pool-duplicate", "one item handed to both threads");
		MC_CHECK(!p.pop(), "pool-extra", "more comes out than went in");
		mc::state(got[0] * 4 + got[1]); mc::outcome(mc::hmix(got[0], sched::steps()));
	});
}

// Many items on many nodes: none is lost, doubled or moved to another node.
MC_HARNESS(pool_many)
{
	static const int counts[] = { 1, 3, 31, 64, 65, 130, 257, 1025 };
	static const int nodes[] = { 0, 1, 2, 7, 63, 64, 255, 256, -1, 65536 };
	int n = mc::pick(counts), k = 1 + (int)mc::choose(10); size_t how = mc::choose(3);
	sched::Opt o; o.preempt = 0; o.job_at = 0;
	MC_LOG("%d items on %d nodes, %s", n, k, how == 0 ? "pushed, then popped" : how == 1 ? "pushed, cleared, pushed, popped" : "pushed two for each popped");
	sched::run(o, [&] {
		MC_HEAP(stdex::pool<item>, p);
		vector<set<int>> in((size_t)k); int v = 0;
		auto push = [&](int j) { item i(++v); p.push(std::move(i), nodes[j]); MC_CHECK(!i.v, "pool-move", "push() copies the item"); in[(size_t)j].insert(v); mc::transition(); };
		auto pop = [&](int j) {
			int x = p.pop(nodes[j]).v; mc::transition();
			if (in[(size_t)j].empty()) { MC_CHECK(!x, "pool-extra", "item %d comes out of node %d, which is empty", x, nodes[j]); return; }
			MC_CHECK(x, "pool-lost", "nothing comes out of node %d, which holds %zu items", nodes[j], in[(size_t)j].size());
			MC_CHECK(in[(size_t)j].erase(x), "pool-wrong", "item %d comes out of node %d and is not there", x, nodes[j]);
		};
		if (how == 1) { for (int i = 0; i < n; i++) push(i % k); p.clear(); for (auto& s : in) s.clear(); for (int j = 0; j < k; j++) pop(j); }
		for (int i = 0; i < n; i++) { push(i % k); if (how == 2 && i % 2) pop((i / 2) % k); }
		size_t left = 0; for (auto& s : in) left += s.size();
		mc::state(mc::hmix(left, (uint64_t)n));
		for (int j = k; j-- > 0;) while (!in[(size_t)j].empty()) pop(j);
		for (int j = 0; j < 10; j++) if (j < k) pop(j); else MC_CHECK(!p.pop(nodes[j]).v, "pool-extra", "an item comes out of node %d, where none was put", nodes[j]);
		mc::outcome(mc::hmix(mc::hmix((uint64_t)n, (uint64_t)k), how)); mc::nontrivial();
	});
}

// --- spinlock ---------------------------------------------------------------------------------
template <size_t TH> static void spin_case(size_t per)
{
	vector<vector<int>> s(TH); // 0: lock, 1: try_lock once, 2: try_lock until it works
	for (size_t t = 0; t < TH; t++) for (size_t i = 0; i < per; i++) s[t].push_back((int)mc::choose(3));
	sched::Opt o; o.preempt = mc::thorough() ? (TH > 2 ? 4 : 6) : (TH > 2 ? 3 : 5); o.job_at = 1;
	sched::run(o, [&] {
		MC_HEAP(stdex::spinlock, l);
		struct shared { int inside = 0, sum = 0, done[4] = { 0, 0, 0, 0 }; };
		MC_HEAP(shared, sh);
		int &inside = sh.inside, &sum = sh.sum; auto& done = sh.done;
		auto body = [&](size_t t) {
			for (int k : s[t]) {
				if (k == 0) l.lock();
				else if (k == 1) { if (!l.try_lock()) continue; }
				else while (!l.try_lock()) this_thread::yield();
				MC_CHECK(inside == 0, "spinlock-exclusion", "two threads hold the lock");
				inside = 1; int x = sum; sched::point(); sum = x + 1; done[t]++;
				MC_CHECK(!l.try_lock(), "spinlock-try-held", "try_lock() succeeds on a held lock");
				inside = 0;
				l.unlock();
			}
		};
		vector<thread> ts;
		for (size_t t = 1; t < TH; t++) ts.emplace_back(body, t);
		body(0);
		for (auto& t : ts) t.join();
		int all = 0; for (int d : done) all += d;
		MC_CHECK(sum == all, "spinlock-lost-update", "%d critical sections, %d visible", all, sum);
		MC_CHECK(l.try_lock(), "spinlock-try-free", "try_lock() fails on a free lock");
		l.unlock();
		l.lock(); l.unlock();
		mc::state(mc::hash(done, sizeof done)); mc::outcome(mc::hmix(mc::hash(done, sizeof done), sched::steps()));
	});
}
MC_HARNESS(spinlock_two_threads) { spin_case<2>(2); }
MC_HARNESS(spinlock_three_threads) { spin_case<3>(1); }
