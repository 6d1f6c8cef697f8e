// Words over an alphabet, in narrow, wide and SGML text.
#pragma once
#include "pcases.h"
#include <math.h>

namespace pw {
	typedef stdex::interval<size_t> Iv;
	// how a text ends: with its buffer, before something else, or with a zero before something else
	struct Ends { int mode = 0; std::string follow; };
	inline Ends ends;
	template <class T> struct BoundText {
		std::basic_string<T> w; size_t n;
		explicit BoundText(const std::string& s) : w(pc::W<T>(ends.mode == 2 ? s + std::string(1, 0) + ends.follow : s + ends.follow)), n(ends.mode == 2 ? SIZE_MAX : s.size()) {}
		const T* data() const { return w.data(); } size_t size() const { return n; }
	};
	inline std::string q(const std::string& s) { return mc::quote(s.data(), s.size()) + (ends.mode == 2 ? ", zero, " : ends.mode ? " before " : "") + (ends.mode ? mc::quote(ends.follow.data(), ends.follow.size()) : std::string()); }
	template <class G> void ending(bool all, const std::vector<std::string>& tok, const std::string& s, G go)
	{
		ends = Ends(); go(s);
		if (!all) return;
		for (auto& f : tok) for (int m : { 1, 2 }) { ends.mode = m; ends.follow = f; go(s); }
		ends = Ends();
	}
	// the last up to two tokens of words of n tokens; shorter words with all ends
	template <class G> void last(const std::vector<std::string>& tok, size_t n, size_t len, const std::string& s, G go)
	{
		const bool all = n + (mc::thorough() ? 1 : 2) <= len;
		if (n == 0) ending(all, tok, s, go);
		else if (n == 1) for (auto& a : tok) ending(all, tok, s + a, go);
		else for (auto& a : tok) for (auto& b : tok) ending(all, tok, s + a + b, go);
	}
	inline bool eq(const Iv& i, const Iv& j) { return i.start > i.end ? j.start > j.end : i.start == j.start && i.end == j.end; }
	inline std::string sh(const Iv& i) { return i.start > i.end ? std::string("none") : mc::str("%zd-%zd", (ssize_t)i.start, (ssize_t)i.end); }
	inline size_t skip(const std::string& s, size_t p, const char* set) { while (p < s.size() && strchr(set, s[p])) ++p; return p; }
	// a token of characters of a set, if there is any
	inline Iv run(const std::string& s, size_t p, const char* set) { size_t e = skip(s, p, set); return e > p ? Iv(p, e) : Iv(); }
	inline Iv digits(const std::string& s, size_t p) { return run(s, p, "0123456789"); }
	inline Iv lit(const std::string& s, size_t p, const char* t) { return p <= s.size() && !s.compare(p, strlen(t), t) && *t ? Iv(p, p + strlen(t)) : Iv(); }
	inline uint64_t dec(const std::string& s, const Iv& i) { uint64_t v = 0; if (i) for (size_t k = i.start; k < i.end; ++k) { uint64_t d = (uint64_t)(s[k] - '0'); v = v > (UINT64_MAX - d) / 10 ? UINT64_MAX : v * 10 + d; } return v; } // the largest value stands for all above it
	struct Fin { bool any = false; uint64_t h = 0; void see(bool ok, size_t n) { any |= ok; h = h * 131 + (ok ? n + 1 : 0); mc::transition(); } };
	inline size_t pumps = 20; // a harness may leave out the longest
	// long words: at most a token, another one many times, at most two tokens
	template <class G> void long_words(const std::vector<std::string>& tok, G go)
	{
		static const size_t counts[] = { 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1025, 65535, 65536, 65537 };
		std::string p = mc::pick(tok); size_t c = mc::choose(pumps), n = counts[c];
		size_t pre = mc::choose(c < 17 ? tok.size() + 1 : 1); std::string s;
		mc::job();
		if (pre) s = tok[pre - 1];
		for (size_t i = 0; i < n; ++i) s += p;
		go(s);
		if (c < 17 || !pre) for (auto& a : tok) if (a != p) { go(s + a); if (c < 17) for (auto& b : tok) go(s + a + b); }
		mc::state(mc::hash(p, n * 64 + pre));
	}
	// f(leaf, word) for each; the last two tokens of a word are run through in one execution
	template <class T, class F> void each(const std::vector<std::string>& tok, size_t len, const pc::Leaf<T>& l, F f)
	{
		Fin fin;
		size_t n = mc::choose(len + 2); std::string s;
		if (n > len) { f(l, fin, [&](auto go) { long_words(tok, go); }); mc::outcome(fin.h); if (fin.any) mc::nontrivial(); return; }
		for (size_t i = 0; i + 2 < n; ++i) { s += mc::pick(tok); if (i == 0) mc::job(); }
		if (n < 3) mc::job();
		f(l, fin, [&](auto go) {
			last(tok, n, len, s, go);
		});
		mc::state(mc::hash(s, n * 8 + sizeof(T) + l.sg)); mc::outcome(fin.h); if (fin.any) mc::nontrivial();
	}
	template <class F> void words(const std::vector<std::string>& tok, size_t len, F f, bool has_sgml = true)
	{
		size_t k = mc::choose(has_sgml ? 3 : 2);
		if (k == pc::wide) each<wchar_t>(tok, len, { false }, f); else each<char>(tok, len, { k == pc::sgml }, f);
	}
	// match a word, compare what is expected of the interval
	template <class T, class P> bool match(const char* key, P& p, const std::string& s, const Iv& want, Fin& fin, int flags = stdex::parser::match_default)
	{
		const BoundText<T> w(s);
		bool ok = p->match(w.data(), 0, w.size(), flags);
		MC_CHECK(ok == (bool)want && eq(p->interval, want), key, "%s: %s instead of %s", q(s).c_str(), sh(p->interval).c_str(), sh(want).c_str());
		fin.see(ok, want.end);
		return ok;
	}
	template <class P> void part(const char* key, const std::string& s, const char* what, const P& p, const Iv& want)
	{
		MC_CHECK(eq(p->interval, want), key, "%s: %s is %s instead of %s", q(s).c_str(), what, sh(p->interval).c_str(), sh(want).c_str());
	}
}
#define WORDS(tok, len, sg, make, ...) pw::words(tok, len, [](const auto& l, pw::Fin& fin, auto all) { typedef typename std::decay<decltype(*l.any())>::type parser_type; typedef typename pw_char<parser_type>::type T; auto p = make; all([&](const std::string& s) __VA_ARGS__); }, sg)
template <class P> struct pw_char; template <class T> struct pw_char<stdex::parser::basic_parser<T>> { typedef T type; };
