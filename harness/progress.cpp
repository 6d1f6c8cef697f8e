// Progress indicators: aggregation over worker threads, rate limiting, deadlines, sections.
#include "mcsched.h"
#include <algorithm>
#include <limits>
#include <memory>
#include <mutex>
#include <stdex/progress.hpp>
#include <thread>
#include <vector>
using namespace std;
typedef stdex::progress<int> prog;

struct host_t : public prog { // deliberately not thread-safe, like the indicators of the library
	int start = -1, end = -1, value = -1, calls = 0, shows = 0, texts = 0; bool stop = false;
	int lastv = 0; bool decreasing = false; string text; int shown = 0, hidden = 0, asked = 0;
	void set_text(const char* t) override { texts++; calls++; text = t; }
	void set_range(int s, int e) override { start = s; end = e; calls++; }
	void set(int v) override { value = v; calls++; if (v < lastv) decreasing = true; lastv = v; }
	void show(bool s) override { shows++; calls++; (s ? shown : hidden)++; }
	bool cancel() override { calls++; asked++; return stop; }
};

template <size_t TH> static void aggregate_case(size_t per, int q, int t, size_t first = 0)
{
	// r: set_range(0, 3+thread), 1,2: set(1), set(2), x: show/text/cancel
	vector<vector<int>> s(TH);
	for (size_t i = 0; i < TH; i++) for (size_t k = 0; k < (i || !first ? per : first); k++) s[i].push_back((int)mc::choose(4));
	size_t host_ops = mc::choose(4); // 0: attached throughout; 1: attached late; 2: detached and attached again; 3: detached for good
	sched::Opt o; o.preempt = mc::thorough() ? t : q; o.job_at = 1;
	bool stop = s[0][0] % 2; int extras = 0; for (auto& x : s) for (int y : x) extras += y == 3;
	sched::run(o, [&] {
		MC_HEAP(host_t, h); h.stop = stop;
		MC_HEAP(stdex::aggregate_progress<int>, a, TH, host_ops == 1 ? nullptr : &h);
		int start = 0, end = 0, value = 0;
		for (size_t i = 0; i < TH; i++) {
			int v = 0, b = 0, e = 0;
			for (int x : s[i]) { if (x == 0) { b = 1; e = 3 + (int)i; } else if (x < 3) v = x + (int)i; }
			start += b; end += e; value += v;
		}
		vector<thread> ts;
		for (size_t i = 0; i < TH; i++)
			ts.emplace_back([&, i] {
				for (int x : s[i]) switch (x) {
					case 0: a[i].set_range(1, 3 + (int)i); break;
					case 1: case 2: a[i].set(x + (int)i); break;
					default: a[i].show(true); a[i].set_text("x"); { bool c = a[i].cancel(); if (!host_ops) MC_CHECK(c == stop, "aggregate-cancel", "cancel() is %d, that of the host %d", c, stop); else MC_CHECK(!c || stop, "aggregate-cancel", "cancelled for no reason"); } a[i].show(false);
				}
			});
		switch (host_ops) {
		case 1: a.attach(&h); break;
		case 2: { prog* p = a.detach(); MC_CHECK(p == &h, "aggregate-detach", "detach() returns something else"); a.attach(&h); break; }
		case 3: { prog* p = a.detach(); MC_CHECK(p == &h, "aggregate-detach", "detach() returns something else"); h.calls = 0; break; }
		}
		for (auto& x : ts) x.join();
		if (host_ops == 3) MC_CHECK(h.calls == 0, "aggregate-detached", "the host is called after detach()");
		else {
			MC_LOG("host shows %d in %d..%d, combined %d in %d..%d", h.value, h.start, h.end, value, start, end);
			if (!host_ops) MC_CHECK(h.shown == extras && h.hidden == extras && h.texts == extras && h.asked == extras && (!extras || h.text == "x"), "aggregate-forward", "%d of %d texts, %d of %d shows, %d of %d hides, %d of %d questions reach the host", h.texts, extras, h.shown, extras, h.hidden, extras, h.asked, extras);
			MC_CHECK(h.value == value, "aggregate-value", "the host shows %d in the end, the workers' sum is %d", h.value, value);
			MC_CHECK(h.start == start && h.end == end, "aggregate-range", "the host shows the range %d..%d in the end, the workers' sum is %d..%d", h.start, h.end, start, end);
		}
		mc::state(mc::hmix(mc::hmix(h.value, h.end), h.calls)); mc::outcome(mc::hmix(mc::hmix(h.value, h.calls), sched::steps()));
	});
}
MC_HARNESS(aggregate_two) { aggregate_case<2>(2, 2, 4); }
MC_HARNESS(aggregate_long) { aggregate_case<2>(1, 1, 2, 4); }
MC_HARNESS(aggregate_three) { aggregate_case<3>(1, 2, 3); }

// Rate-limited reporting: the ends of the range always come through, the rest not more often than the period.
struct lazy_t : public stdex::lazy_progress<int> {
	vector<pair<int, uint64_t>> shown;
	lazy_t(chrono::nanoseconds t) : lazy_progress(t) {}
	void do_set() override { shown.push_back({ m_value, sched::now() }); }
};
MC_HARNESS(lazy_progress_rate)
{
	size_t n = mc::thorough() ? 6 : 5;
	struct ev { int sleep, value; };
	vector<ev> s;
	for (size_t i = 0; i < n; i++) { int v = (int)mc::choose(4); int w = (int)mc::choose(2); s.push_back({ w ? 7 : 2, v }); }
	sched::Opt o; o.job_at = 0;
	sched::run(o, [&] {
		lazy_t p{ chrono::milliseconds(5) };
		p.set_range(0, 3);
		size_t want = 0; int last = -1; uint64_t lastt = 0; bool any = false;
		for (auto& e : s) {
			this_thread::sleep_for(chrono::milliseconds(e.sleep));
			size_t before = p.shown.size();
			p.set(e.value);
			bool due = e.value == 0 || e.value == 3 || (e.value != last && (!any || sched::now() - lastt >= 5000000));
			MC_LOG("set(%d) at %d ms: %s", e.value, (int)(sched::now() / 1000000), p.shown.size() > before ? "shown" : "not shown");
			MC_CHECK(p.shown.size() - before == (due ? 1u : 0u), "lazy-rate", "set(%d), last shown %d %d ms ago: %s", e.value, last, (int)((sched::now() - lastt) / 1000000), due ? "not shown" : "shown");
			if (due) { MC_CHECK(p.shown.back().first == e.value, "lazy-value", "%d is shown as %d", e.value, p.shown.back().first); last = e.value; lastt = sched::now(); any = true; want++; }
		}
		mc::state(mc::hmix(want, last)); mc::outcome(mc::hmix(want, last));
	});
}
// A deadline cancels, not before it, and so does the host.
MC_HARNESS(timeout_progress_deadline)
{
	int total = (int)mc::choose(4) * 4, at = 1 + (int)mc::choose(12) ; bool stop = mc::flip(), hosted = mc::flip();
	sched::Opt o; o.job_at = 0;
	sched::run(o, [&] {
		host_t h; h.stop = stop;
		stdex::timeout_progress<int> p(chrono::milliseconds(total), hosted ? &h : nullptr);
		p.set_range(1, 9); p.set(5); p.show(); p.set_text("t"); p.show(false);
		if (hosted) MC_CHECK(h.start == 1 && h.end == 9 && h.value == 5 && h.shown == 1 && h.hidden == 1 && h.text == "t", "timeout-forward", "calls do not reach the host");
		MC_CHECK(p.cancel() == (hosted && stop), "timeout-early", "cancelled before the deadline");
		this_thread::sleep_for(chrono::milliseconds(at));
		if (at != total) MC_CHECK(p.cancel() == ((hosted && stop) || at > total), "timeout-cancel", "%d ms into %d ms: cancel() is %d", at, total, (int)p.cancel());
		mc::state(p.cancel()); mc::outcome(p.cancel() * 2 + hosted);
	});
}
// Sections map local progress linearly into their part of the whole; a switcher restores the host.
MC_HARNESS(global_progress_sections)
{
	int ls = (int)mc::choose(3), len = (int)mc::choose(5), ss = (int)mc::choose(3) * 10, slen = (int)mc::choose(4) * 5, v = (int)mc::choose(5);
	bool switcher = mc::flip();
	mc::job();
	host_t h; prog* host = &h;
	{
		stdex::global_progress<int> g(&h);
		unique_ptr<stdex::progress_switcher<int>> sw;
		stdex::global_progress<int>* p = &g;
		if (switcher) { sw.reset(new stdex::progress_switcher<int>(host)); p = sw.get(); MC_CHECK(host == p, "switcher", "the switcher is not in place"); }
		p->set_global_range(0, 100);
		MC_CHECK(h.start == 0 && h.end == 100, "global-range", "host range %d..%d", h.start, h.end);
		p->set_section_range(ss, ss + slen);
		p->set_range(ls, ls + len);
		MC_CHECK(h.start == 0 && h.end == 100, "global-range", "a local range reaches the host");
		if (v <= len) {
			p->set(ls + v);
			if (len) MC_CHECK(h.value == ss + v * slen / len, "global-value", "%d of %d..%d in section %d..%d shows as %d", ls + v, ls, ls + len, ss, ss + slen, h.value);
			else MC_CHECK(h.value == -1, "global-empty", "empty local range reports %d", h.value);
		}
		p->show(); p->set_text("x");
		MC_CHECK(h.shown == 1 && !h.hidden && h.texts == 1 && h.text == "x", "global-forward", "calls do not reach the host");
		p->show(false); MC_CHECK(h.shown == 1 && h.hidden == 1, "global-forward", "hiding does not reach the host");
		MC_CHECK(!p->cancel(), "global-cancel", "cancelled for no reason");
		h.stop = true; MC_CHECK(p->cancel(), "global-cancel", "cancel() of the host is not seen");
		if (!switcher) { // another host takes over
			host_t h2; int calls = h.calls; auto all = [&](int x) { p->set_global_range(x, x + 50); p->set_section_range(x, x + 50); p->set_range(0, 50); p->set(x % 50); p->show(); p->set_text("y"); return p->cancel(); };
			MC_CHECK(p->detach() == &h && !all(1) && h.calls == calls, "global-detach", "the host is called after detach()");
			MC_CHECK(!p->detach(), "global-detach", "a host without one");
			p->attach(&h2); MC_CHECK(!all(7) && h.calls == calls && h2.start == 7 && h2.end == 57 && h2.value == 14 && h2.shown == 1 && h2.text == "y" && h2.asked == 1, "global-attach", "the new host shows %d in %d..%d", h2.value, h2.start, h2.end);
			p->attach(nullptr); MC_CHECK(!all(8) && h2.value == 14, "global-attach", "the host is called after another was attached");
		}
	}
	MC_CHECK(host == &h, "switcher-restore", "the host is not restored");
	mc::state(mc::hmix(h.value, ss)); mc::outcome(h.value);
}

// The same for ranges of any type and size: the product may not fit the type, the result does.
namespace {
	template <class T> struct probe : public stdex::progress<T> { T value = 0; int calls = 0; void set(T v) override { value = v; calls++; } };
	template <class T> vector<T> sizes()
	{
		const T m = numeric_limits<T>::max(); const int b = (int)(sizeof(T) * 8);
		vector<T> r{ 1, 2, 3, 10, 100, (T)(m / 2), (T)(m - 1), m };
		for (int i = b / 2 - 2; i < b; i += (b + 7) / 8) { T x = (T)((T)1 << (i - 1)); r.push_back((T)(x - 1)); r.push_back(x); r.push_back((T)(x + 1)); }
		return r;
	}
	template <class T> void section_large(const char* name)
	{
		const T m = numeric_limits<T>::max(); const auto n = sizes<T>();
		T len = n[mc::choose(n.size())];
		mc::job();
		for (T slen : n) for (int away = 0; away < 4; away++) {
			T ls = away & 1 ? (T)(m - len) : (T)0, ss = away & 2 ? (T)(m - slen) : (T)0;
			probe<T> h; stdex::global_progress<T> g(&h); stdex::progress<T>& p = g;
			g.set_global_range(0, m); g.set_section_range(ss, (T)(ss + slen)); p.set_range(ls, (T)(ls + len));
			T last = ss;
			vector<T> vs{ 0, (T)(len / 3), (T)(len / 2), (T)(len - 1), len };
			for (T v : n) if (v < len) vs.push_back(v);
			sort(vs.begin(), vs.end());
			for (T v : vs) {
				p.set((T)(ls + v));
				T e = (T)(ss + (T)((__int128)v * slen / len));
				MC_CHECK(h.value == e, "global-large", "%s: %llu of %llu in a section of %llu at %llu shows as %lld instead of %lld", name, (unsigned long long)v, (unsigned long long)len, (unsigned long long)slen, (unsigned long long)ss, (long long)h.value, (long long)e);
				MC_CHECK(h.value >= last, "global-large", "%s: progress goes back", name);
				last = e; mc::transition();
			}
			MC_CHECK(h.calls == (int)vs.size() && h.value == (T)(ss + slen), "global-large", "%s: the end of the section is not reached", name);
			mc::state(mc::hmix((uint64_t)len, (uint64_t)slen));
		}
		mc::outcome(mc::hmix((uint64_t)len, sizeof(T))); mc::nontrivial();
	}
}
MC_HARNESS(global_progress_large)
{
	switch (mc::choose(9)) {
	case 0: section_large<int>("int"); break;
	case 1: section_large<unsigned>("unsigned"); break;
	case 2: section_large<int64_t>("int64_t"); break;
	case 3: section_large<uint64_t>("uint64_t"); break;
	case 4: section_large<short>("short"); break;
	case 5: section_large<uint8_t>("uint8_t"); break;
	case 6: section_large<long long>("long long"); break;
	case 7: section_large<unsigned long long>("unsigned long long"); break;
	default: { // and fractions
		mc::job();
		probe<double> h; stdex::global_progress<double> g(&h);
		g.set_section_range(0.5, 0.75); static_cast<stdex::progress<double>&>(g).set_range(0, 8);
		for (int i = 0; i <= 8; i++) { g.set(i); MC_CHECK(h.value == 0.5 + i / 32.0, "global-large", "double: %d of 8 shows as %g", i, h.value); }
	}
	}
}

// The combined state of workers one after another: ranges of any sign, and many workers.
MC_HARNESS(aggregate_ranges)
{
	static const int R[][2] = { { 0, 0 }, { 0, 3 }, { -3, 0 }, { 5, 9 }, { 4, 4 }, { 9, 2 } }, V[] = { 0, 3, -3, 7 };
	size_t workers = 2, ops = mc::thorough() ? 5 : 4;
	sched::Opt o; o.preempt = 0;
	vector<pair<int, int>> s;
	for (size_t i = 0; i < ops; i++) { int w = (int)mc::choose(2), x = (int)mc::choose(10); s.push_back({ w, x }); }
	o.job_at = 2;
	sched::run(o, [&] {
		host_t h; stdex::aggregate_progress<int> a(workers, &h);
		int b[2] = {}, e[2] = {}, v[2] = {};
		MC_CHECK(h.start == 0 && h.end == 0 && h.value == 0, "aggregate-range", "%d in %d..%d in the beginning", h.value, h.start, h.end);
		for (auto& x : s) {
			int w = x.first;
			if (x.second < 6) { b[w] = R[x.second][0]; e[w] = R[x.second][1]; a[(size_t)w].set_range(b[w], e[w]); }
			else { v[w] = V[x.second - 6]; a[(size_t)w].set(v[w]); }
			MC_CHECK(h.start == b[0] + b[1] && h.end == e[0] + e[1] && h.value == v[0] + v[1], "aggregate-range", "the host shows %d in %d..%d, the workers' sum is %d in %d..%d", h.value, h.start, h.end, v[0] + v[1], b[0] + b[1], e[0] + e[1]);
			mc::transition();
		}
		mc::state(mc::hmix((uint64_t)h.value, (uint64_t)(h.start * 100 + h.end))); mc::outcome(mc::hmix((uint64_t)h.value, (uint64_t)(h.start * 100 + h.end))); mc::nontrivial();
	});
}
MC_HARNESS(aggregate_many)
{
	static const size_t counts[] = { 1, 4, 9, 33, 257, 1000 };
	size_t n = mc::pick(counts), step = 1 + mc::choose(3); bool late = mc::flip();
	sched::Opt o; o.preempt = 0; o.job_at = 0;
	sched::run(o, [&] {
		host_t h, h2; stdex::aggregate_progress<int> a(n, late ? nullptr : &h);
		int start = 0, end = 0, value = 0; vector<int> vs(n);
		for (size_t i = 0; i < n; i += step) { a[i].set_range((int)i, (int)(3 * i + 1)); start += (int)i; end += (int)(3 * i + 1); }
		if (late) a.attach(&h);
		for (int r = 1; r <= 3; r++) for (size_t i = 0; i < n; i++) {
			value += (int)(i % 17) * r - vs[i]; vs[i] = (int)(i % 17) * r; a[i].set(vs[i]);
			MC_CHECK(h.value == value && h.start == start && h.end == end, "aggregate-value", "the host shows %d in %d..%d, the workers' sum is %d in %d..%d", h.value, h.start, h.end, value, start, end);
			mc::transition();
		}
		MC_CHECK(a.detach() == &h, "aggregate-detach", "detach() returns something else"); a.attach(&h2);
		MC_CHECK(h2.value == value && h2.start == start && h2.end == end, "aggregate-attach", "a new host shows %d in %d..%d, the workers' sum is %d in %d..%d", h2.value, h2.start, h2.end, value, start, end);
		mc::state(mc::hmix(n, step)); mc::outcome(mc::hmix(n, (uint64_t)value)); mc::nontrivial();
	});
}
