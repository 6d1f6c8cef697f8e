// P01: what every parser promises whatever it parses: it stays inside the text it was given, it reports an interval
// if and only if it matches, and the answer depends on the text alone (not on where it lies, what surrounds it, how
// it ends, or what the same object matched before).
#include "pcases.h"

// text with nothing after it, so that reading past the end is noticed
template <class T> struct Tight {
	T* p; size_t n;
	explicit Tight(const std::basic_string<T>& s) : p((T*)malloc(s.size() * sizeof(T) + !s.size())), n(s.size()) { if (n) memcpy(p, s.data(), n * sizeof(T)); }
	~Tight() { free(p); }
};
template <class T> static std::string q(const std::basic_string<T>& s) { std::string r; for (auto c : s) r += (char)c; return mc::quote(r.data(), r.size()); }

template <class T>
struct Rig {
	const pc::Case& c; pc::Leaf<T> l;
	const std::string none = pc::dumped<T>(fresh().get()); // what a parser that has not matched reports
	pc::SP<T> fresh() const { return pc::make(c, l); }
	std::string key(const char* what) const { return mc::str("parser.%s.%s", c.name, what); }

	// one match of a new parser
	std::string once(const T* p, size_t start, size_t end, bool& ok) const
	{
		auto x = fresh();
		ok = x->match(p, start, end);
		MC_CHECK(ok ? x->interval.start == start && x->interval.start <= x->interval.end : x->interval.start > x->interval.end, key("interval"),
			"%s reports %zd-%zd", ok ? "a match" : "a miss", (ssize_t)x->interval.start, (ssize_t)x->interval.end);
		return ok ? pc::dumped<T>(x.get(), start) : "";
	}
	std::string word(const std::string& s, pc::SP<T> reused)
	{
		const auto w = pc::W<T>(s);
		Tight<T> t(w);
		bool ok, ok2;
		auto x = fresh();
		ok = x->match(t.p, 0, t.n);
		MC_CHECK(ok == (x->interval.start <= x->interval.end), key("interval"), "%s: a %s with interval %zd-%zd", q(w).c_str(), ok ? "match" : "miss", (ssize_t)x->interval.start, (ssize_t)x->interval.end);
		MC_CHECK(!ok || (x->interval.start == 0 && x->interval.end <= t.n), key("interval"), "%s: matches %zd-%zd", q(w).c_str(), (ssize_t)x->interval.start, (ssize_t)x->interval.end);
		const std::string r = ok ? pc::dumped<T>(x.get()) : "";
		MC_LOG("%s: %s", q(w).c_str(), ok ? r.c_str() : "no match");
		// the same object again
		ok2 = x->match(t.p, 0, t.n);
		std::string r2 = ok2 ? pc::dumped<T>(x.get()) : "";
		MC_CHECK(ok == ok2 && r == r2, key("reuse"), "%s: %s at first, %s again", q(w).c_str(), ok ? r.c_str() : "no match", ok2 ? r2.c_str() : "no match");
		// as a view
		ok2 = fresh()->match(std::basic_string_view<T>(t.p, t.n));
		MC_CHECK(ok == ok2, key("view"), "%s", q(w).c_str());
		// terminated
		r2 = once(w.c_str(), 0, SIZE_MAX, ok2);
		MC_CHECK(ok == ok2 && r == r2, key("terminated"), "%s: %s, but %s when ended by a zero", q(w).c_str(), ok ? r.c_str() : "no match", ok2 ? r2.c_str() : "no match");
		// within something else
		static const char* const around[][2] = { { "", "1" }, { "a;", "a\"9" }, { "/8", "." } };
		for (auto& e : around) {
			if (c.behind && e[0][0]) continue;
			const auto a = pc::W<T>(e[0]), z = pc::W<T>(e[1]);
			Tight<T> u(a + w + z);
			r2 = once(u.p, a.size(), a.size() + w.size(), ok2);
			MC_CHECK(ok == ok2 && r == r2, key("context"), "%s: %s, but %s within %s", q(w).c_str(), ok ? r.c_str() : "no match", ok2 ? r2.c_str() : "no match", q(a + w + z).c_str());
		}
		mc::transition(8);
		// an object used for something else before
		if (reused) {
			ok2 = reused->match(t.p, 0, t.n);
			r2 = ok2 ? pc::dumped<T>(reused.get()) : "";
			MC_CHECK(ok == ok2 && r == r2, key("reuse"), "%s: %s, but %s of an object used before", q(w).c_str(), ok ? r.c_str() : "no match", ok2 ? r2.c_str() : "no match");
		}
		if (!ok) MC_CHECK(pc::dumped<T>(x.get()) == none, key("miss"), "%s: does not match, but %s is left, instead of %s", q(w).c_str(), pc::dumped<T>(x.get()).c_str(), none.c_str());
		x->invalidate();
		MC_CHECK(!x->interval && x->interval.start > x->interval.end && pc::dumped<T>(x.get()) == none, key("invalidate"), "%s: %s after invalidate() instead of %s", q(w).c_str(), pc::dumped<T>(x.get()).c_str(), none.c_str());
		return r;
	}
	// the first position that matches
	void search(const std::string& s)
	{
		const auto w = pc::W<T>(s);
		Tight<T> t(w);
		auto x = fresh();
		bool any = x->search(t.p, 0, t.n);
		std::string r = any ? pc::dumped<T>(x.get()) : "";
		for (size_t i = 0; i < w.size(); ++i) {
			auto y = fresh();
			if (!y->match(t.p, i, t.n)) continue;
			std::string r2 = pc::dumped<T>(y.get());
			MC_CHECK(any && r == r2, key("search"), "%s: searching gives %s, matching at %zu gives %s", q(w).c_str(), any ? r.c_str() : "no match", i, r2.c_str());
			MC_CHECK(fresh()->search(w.c_str()), key("search"), "%s: nothing when ended by a zero", q(w).c_str());
			return;
		}
		MC_CHECK(!any && x->interval.start > x->interval.end, key("search"), "%s: %s%zd-%zd found by searching only", q(w).c_str(), any ? r.c_str() : "", (ssize_t)x->interval.start, (ssize_t)x->interval.end);
	}
	void words(size_t depth)
	{
		std::string s; size_t n = mc::choose(depth + 1);
		std::string last;
		for (size_t i = 0; i + 1 < n; ++i) { s += mc::pick(c.tokens); if (i == 0) mc::job(); }
		if (n < 2) mc::job();
		// the last token of all, with one object that lives on
		auto reused = fresh();
		uint64_t h = 0;
		for (auto& t : c.tokens) {
			std::string v = n ? s + t : s;
			std::string r = word(v, reused);
			search(v);
			h = mc::hash(r, h); if (!r.empty()) mc::nontrivial();
			mc::outcome(mc::hash(r));
			if (!n) break;
		}
		mc::state(mc::hash(s, mc::hash(c.name, strlen(c.name), l.sg + 2 * sizeof(T))));
	}
	// all pairs: what an object matched before does not show
	void pairs()
	{
		std::vector<std::string> v{ "" };
		for (auto& a : c.tokens) { v.push_back(a); for (auto& b : c.tokens) v.push_back(a + b); }
		for (auto& a : c.samples) for (size_t i = 1; i <= a.size(); ++i) v.push_back(a.substr(0, i));
		const std::string& first = v[mc::choose(v.size())];
		mc::job();
		const auto w = pc::W<T>(first);
		for (auto& s : v) {
			auto x = fresh();
			x->match(w.data(), 0, w.size());
			const auto u = pc::W<T>(s);
			bool ok, ok2 = x->match(u.data(), 0, u.size());
			auto y = fresh(); ok = y->match(u.data(), 0, u.size());
			std::string r = ok ? pc::dumped<T>(y.get()) : "", r2 = ok2 ? pc::dumped<T>(x.get()) : "";
			MC_CHECK(ok == ok2 && r == r2, key("reuse"), "%s: %s, but %s after %s", q(u).c_str(), ok ? r.c_str() : "no match", ok2 ? r2.c_str() : "no match", q(w).c_str());
			// searching too, and a search that finds nothing leaves nothing
			x = fresh(); x->match(w.data(), 0, w.size());
			ok2 = x->search(u.data(), 0, u.size()); y = fresh(); ok = y->search(u.data(), 0, u.size());
			r = ok ? pc::dumped<T>(y.get()) : none; r2 = ok2 || x->interval.start > x->interval.end ? pc::dumped<T>(x.get()) : "a stale result";
			MC_CHECK(ok == ok2 && r == r2, key("reuse"), "searching %s: %s, but %s after %s", q(u).c_str(), r.c_str(), r2.c_str(), q(w).c_str());
			mc::transition(2);
			if (ok) mc::nontrivial();
		}
		word(first, nullptr); search(first);
		mc::state(mc::hash(first, mc::hash(c.name, strlen(c.name), l.sg + 2 * sizeof(T)))); mc::outcome(mc::hash(first));
	}
};
static void go(void (*f)(const pc::Case&, int))
{
	const char* only = getenv("CASE");
	auto& all = pc::cases();
	const pc::Case& c = all[mc::choose(all.size())];
	int kind = (int)mc::choose(3);
	if (!(c.kinds >> kind & 1) || (only && strcmp(only, c.name))) { mc::job(); return; }
	f(c, kind);
}
#define RUN(what) go([](const pc::Case& c, int kind) { \
	if (kind == pc::wide) Rig<wchar_t>{ c, { false } }.what; else Rig<char>{ c, { kind == pc::sgml } }.what; })
MC_HARNESS(words) { RUN(words(mc::thorough() ? c.deep : c.quick > 4 ? c.quick - 1 : c.quick)); }
MC_HARNESS(pairs) { RUN(pairs()); }
