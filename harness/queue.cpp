// U01: vector_queue against a bounded deque, for every history of operations.
#include "mc.h"
#include <stdex/compat.hpp>
#include <stdex/vector_queue.hpp>
#include <deque>
#include <memory>
#include <string>

static long live; static bool faults;
struct probe {
	int v = -1; bool moved = false;
	probe() { live++; }
	probe(int x) : v(x) { live++; }
	probe(const probe& o) : v(o.v) { live++; }
	~probe() { live--; v = -2; }
	probe& operator=(const probe& o) { if (faults && mc::choose_dev(2)) throw 1; v = o.v; moved = o.moved; return *this; }
	probe& operator=(probe&& o) { if (faults && mc::choose_dev(2)) throw 1; v = o.v; moved = o.moved; if (this != &o) o.moved = true; return *this; }
};
typedef stdex::vector_queue<probe> Q;
struct R { std::deque<int> d; size_t cap; };

template <class F> static bool throws(F f) { try { f(); return false; } catch (const std::invalid_argument&) { return true; } }
static void same(Q& q, const R& r, const char* op, bool last = true)
{
	auto cs = [&] { std::string c; for (int x : r.d) c += mc::str(" %d", x); return c; };
	const Q& k = q;
	MC_CHECK(k.size() == r.d.size() && k.capacity() == r.cap && k.empty() == r.d.empty(), "queue.size", "after %s: %zu of %zu elements instead of %zu of %zu", op, k.size(), k.capacity(), r.d.size(), r.cap);
	for (size_t i = 0; i < r.d.size(); i++)
		MC_CHECK(k[i].v == r.d[i] && k.at(i).v == r.d[i] && q[i].v == r.d[i] && q.at(i).v == r.d[i] && k.at_abs(k.abs(i)).v == r.d[i] && q.at_abs(q.abs(i)).v == r.d[i] && !k[i].moved,
			"queue.content", "after %s element %zu is %d; should be:%s", op, i, k[i].v, cs().c_str());
	if (last) for (size_t i = r.d.size(); i < r.d.size() + 2; i++)
		MC_CHECK(throws([&] { k[i]; }) && throws([&] { k.at(i); }) && throws([&] { q[i]; }) && throws([&] { q.at(i); }), "queue.subscript", "after %s element %zu of %zu does not throw", op, i, r.d.size());
	if (last) for (size_t i = r.cap; i < r.cap + 2; i++) MC_CHECK(throws([&] { k.at_abs(i); }) && throws([&] { q.at_abs(i); }), "queue.subscript", "after %s storage past the capacity of %zu does not throw", op, r.cap);
	if (r.d.empty()) { if (last)
		MC_CHECK(throws([&] { k.front(); }) && throws([&] { q.front(); }) && throws([&] { k.back(); }) && throws([&] { q.back(); }) && throws([&] { k.tail(); }) && throws([&] { q.pop_back(); }) && throws([&] { q.pop_front(); }) && q.empty(), "queue.empty", "an empty queue does not throw"); }
	else
		MC_CHECK(k.front().v == r.d.front() && q.front().v == r.d.front() && k.back().v == r.d.back() && q.back().v == r.d.back() && k.head() == k.abs(0) && k.tail() == k.abs(r.d.size() - 1), "queue.ends", "after %s ends are %d and %d; should be:%s", op, k.front().v, k.back().v, cs().c_str());
}
static void run(size_t caps, size_t depth, bool two)
{
	live = 0; faults = false; mc::set_deviation_bound(two ? 1 : 0);
	{
		size_t cap = 1 + mc::choose(caps), cap2 = two ? 1 + mc::choose(caps) : 1;
		auto q = std::make_unique<Q>(cap), q2 = std::make_unique<Q>(cap2); R r{ {}, cap }, r2{ {}, cap2 };
		if (two) { probe p(77), p2(78); q2->push_back(p); r2.d.push_back(77); if (cap2 > 1 && mc::flip()) { q2->push_front(p2); r2.d.push_front(78); } }
		int next = 1;
		for (size_t k = 0; k < depth; k++) {
			if (k == 2) mc::job();
			size_t op = mc::choose(two ? 14 : 8); std::string name; probe v(next); R before = r; size_t pos = 0; bool pushed = false, back = false;
			faults = two; bool failed = false, moving = false;
			try {
				switch (op) {
				case 0: name = "push_back(copy)"; pos = q->push_back(v); pushed = back = true; break;
				case 1: name = "push_back(move)"; moving = true; pos = q->push_back(std::move(v)); pushed = back = true; break;
				case 2: name = "push_front(copy)"; pos = q->push_front(v); pushed = true; break;
				case 3: name = "push_front(move)"; moving = true; pos = q->push_front(std::move(v)); pushed = true; break;
				case 4: name = "pop_back"; if (r.d.empty()) goto none; q->pop_back(); r.d.pop_back(); break;
				case 5: name = "pop_front"; if (r.d.empty()) goto none; q->pop_front(); r.d.pop_front(); break;
				case 6: name = "write"; if (r.d.empty()) goto none; faults = false; { size_t i = mc::choose(r.d.size()); (*q)[i] = v; r.d[i] = next; } break;
				case 7: name = "clear"; q->clear(); r.d.clear(); break;
				case 8: name = "copy construct"; { Q c(*q); faults = false; same(c, r, "copy construction"); } break;
				case 9: name = "copy assign"; *q = *q2; r = r2; break;
				case 10: name = "move assign"; *q = std::move(*q2); r = r2; faults = false; { R z{ {}, 0 }; same(*q2, z, "being moved from"); } q2.reset(new Q(cap2)); r2 = { {}, cap2 }; break;
				case 11: name = "move construct"; { auto m = std::make_unique<Q>(std::move(*q)); R z{ {}, 0 }; faults = false; same(*q, z, "being moved from"); if (mc::flip()) { *q = *m; } else { *q = std::move(*m); } } break;
				case 12: name = "self-assign"; { Q& s = *q; *q = s; *q = std::move(s); } break;
				case 13: name = "swap"; std::swap(q, q2); std::swap(r, r2); break;
				}
			}
			catch (int) { failed = true; }
			faults = false;
			if (failed) { name += " that failed"; MC_LOG("%s", name.c_str());
				if (op == 9 || op < 4) { r = before; if (op < 4 && r.d.size() == r.cap) goto gone; } } // pushing to a full queue overwrites in place: that element is up to its type
			else MC_LOG("%s", name.c_str());
			if (pushed) {
				if (back) { if (r.d.size() == r.cap) r.d.pop_front(); r.d.push_back(next); } else { if (r.d.size() == r.cap) r.d.pop_back(); r.d.push_front(next); }
				MC_CHECK(pos == q->abs(back ? r.d.size() - 1 : 0) && v.moved == moving, "queue.position", "%s returned %zu, the element is at %zu", name.c_str(), pos, q->abs(back ? r.d.size() - 1 : 0));
			}
			same(*q, r, name.c_str(), k + 1 == depth && depth < 5); if (two) same(*q2, r2, name.c_str(), false);
			MC_CHECK(live == (long)(q->capacity() + q2->capacity()) + 1, "queue.leak", "after %s there are %ld elements alive for capacities of %zu and %zu", name.c_str(), live - 1, q->capacity(), q2->capacity());
			mc::transition(); next++;
			{ uint64_t h = mc::hmix(q->head(), r.cap); for (int x : r.d) h = mc::hmix(h, x); for (int x : r2.d) h = mc::hmix(h, x); mc::state(h); if (k + 1 == depth) { mc::outcome(h); if (r.d.size() == r.cap) mc::nontrivial(); } }
			continue;
		none: throw mc::Abandon();
		gone: break;
		}
	}
	MC_CHECK(live == 0, "queue.leak", "%ld elements are left", live);
}
MC_HARNESS(one_queue) { run(mc::thorough() ? 6 : 5, mc::thorough() ? 7 : 6, false); }
MC_HARNESS(one_queue_errors) { run(3, 4, false); }
MC_HARNESS(two_queues) { run(3, mc::thorough() ? 4 : 3, true); }
// Long runs around the ring in every capacity.
MC_HARNESS(rotation)
{
	size_t cap = 1 + mc::choose(65), plan = mc::choose(16);
	mc::job(); faults = false;
	Q q(cap); R r{ {}, cap };
	for (size_t i = 0; i < 5 * cap + 20; i++) {
		bool back = plan & 1 ? i % 7 < 3 : plan & 2 ? true : false; int v = (int)i; probe p(v);
		if (back) { q.push_back(p); if (r.d.size() == cap) r.d.pop_front(); r.d.push_back(v); } else { q.push_front(p); if (r.d.size() == cap) r.d.pop_back(); r.d.push_front(v); }
		if (plan & 4 && i % 3 == 0) { q.pop_front(); r.d.pop_front(); }
		if (plan & 8 && i % 5 == 0 && r.d.size()) { q.pop_back(); r.d.pop_back(); }
		same(q, r, "rotation", false); mc::transition();
	}
	mc::state(cap * 16 + plan); mc::outcome(cap * 16 + plan); mc::nontrivial();
}
// Capacities past what a narrow position could count.
MC_HARNESS(large)
{
	static const size_t caps[] = { 127, 128, 129, 255, 256, 257, 300, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
	size_t cap = mc::pick(caps), plan = mc::choose(12);
	mc::job(); faults = false; live = 0;
	{
		Q q(cap); R r{ {}, cap }; int v = 0; size_t total = 2 * cap + cap / 2 + 3, every = total / 6 + 1;
		for (size_t i = 0; i < total; i++, v++) {
			bool back = plan % 3 == 0 ? true : plan % 3 == 1 ? false : i % 7 < 4; probe p(v); size_t at;
			if (back) { at = i & 1 ? q.push_back(p) : q.push_back(std::move(p)); if (r.d.size() == cap) r.d.pop_front(); r.d.push_back(v); } else { at = i & 1 ? q.push_front(p) : q.push_front(std::move(p)); if (r.d.size() == cap) r.d.pop_back(); r.d.push_front(v); }
			MC_CHECK(at == q.abs(back ? r.d.size() - 1 : 0) && at < cap && q.at_abs(at).v == v, "queue.position", "push %zu to a queue of %zu returned %zu", i, cap, at);
			if (plan / 3 & 1 && i % 3 == 0) { q.pop_front(); r.d.pop_front(); }
			if (plan / 6 & 1 && i % 5 == 0 && r.d.size()) { q.pop_back(); r.d.pop_back(); }
			MC_CHECK(q.size() == r.d.size() && (r.d.empty() || (q.front().v == r.d.front() && q.back().v == r.d.back())), "queue.ends", "after push %zu to a queue of %zu", i, cap);
			if (i % every == every - 1) same(q, r, "a long run", false);
		}
		same(q, r, "a long run", true); mc::transition(total);
		{ Q c(q), a(1); same(c, r, "copy construction", false); a = q; same(a, r, "copy assignment", false); Q m(std::move(c)); same(m, r, "move construction", false); a.clear(); a = std::move(m); same(a, r, "move assignment", false);
		  probe p(-7); a.push_back(p); R s = r; if (s.d.size() == cap) s.d.pop_front(); s.d.push_back(-7); same(a, s, "pushing to a copy", false); same(q, r, "changing a copy", false); }
		while (!r.d.empty()) { q.pop_front(); r.d.pop_front(); if (!r.d.empty()) { MC_CHECK(q.front().v == r.d.front(), "queue.ends", "popping a queue of %zu", cap); q.pop_back(); r.d.pop_back(); } MC_CHECK(q.size() == r.d.size() && (r.d.empty() || q.back().v == r.d.back()), "queue.ends", "popping a queue of %zu", cap); }
		same(q, r, "popping everything", false);
	}
	MC_CHECK(live == 0, "queue.leak", "%ld elements are left", live);
	mc::state(cap * 12 + plan); mc::outcome(cap * 12 + plan); mc::nontrivial();
}
