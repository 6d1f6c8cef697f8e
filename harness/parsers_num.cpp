// P03: numerals match exactly what reads as such a numeral, and mean what they say.
#include "pwords.h"
using namespace pw;
typedef std::vector<std::string> S;
static size_t L(size_t quick) { return mc::thorough() ? quick + 2 : quick + 1; }

MC_HARNESS(decimal)
{
	WORDS((S{ "0", "1", "7", "23456", "89", "a", "-" }), L(6), true, l.int10(), {
		Iv w = digits(s, 0);
		if (match<T>("num.integer10", p, s, w, fin)) MC_CHECK(p->value == dec(s, w), "num.integer10", "%s: %zu", q(s).c_str(), p->value); else MC_CHECK(!p->value, "num.integer10", "%s: %zu without a match", q(s).c_str(), p->value);
	});
}
MC_HARNESS(grouped)
{
	WORDS((S{ "1", "20", "345", "6789", ".", ",", "a" }), L(6), true, l.int10ts(), {
		Iv w = digits(s, 0); size_t n = w ? w.size() : 0; bool sep = false; std::string num = w ? s.substr(0, w.end) : "";
		if (w && n <= 3) {
			char c = 0;
			for (Iv d; w.end < s.size() && (c ? s[w.end] == c : s[w.end] == '.' || s[w.end] == ',') && (d = digits(s, w.end + 1)) && d.size() == 3;) { c = s[w.end]; w.end = d.end; n += 3; sep = true; num += s.substr(d.start, 3); }
		}
		if (match<T>("num.integer10ts", p, s, w, fin))
			MC_CHECK(p->value == dec(num, Iv(0, num.size())) && p->digit_count == n && p->has_separators == sep, "num.integer10ts", "%s: %zu of %zu digits, %s separators", q(s).c_str(), p->value, p->digit_count, p->has_separators ? "with" : "without");
	});
}
MC_HARNESS(hexadecimal)
{
	WORDS((S{ "0", "9", "a", "F", "bcdef", "12345678", "g" }), L(5), true, l.int16(), {
		for (int flags : { stdex::parser::match_default, stdex::parser::match_case_insensitive }) {
			Iv w = run(s, 0, flags ? "0123456789abcdefABCDEF" : "0123456789abcdef");
			if (match<T>("num.integer16", p, s, w, fin, flags)) {
				uint64_t v = 0; for (size_t i = 0; i < w.end; ++i) v = v >> 60 ? UINT64_MAX : v * 16 + (uint64_t)(strchr("0123456789abcdef", tolower(s[i])) - "0123456789abcdef");
				MC_CHECK(p->value == v, "num.integer16", "%s: %zx", q(s).c_str(), p->value);
			}
		}
	});
}
static const struct { char c; unsigned v; } rom[] = { { 'I', 1 }, { 'V', 5 }, { 'X', 10 }, { 'L', 50 }, { 'C', 100 }, { 'D', 500 }, { 'M', 1000 }, { 'P', 5000 }, { 'Q', 10000 } };
static unsigned rv(char c) { for (auto& r : rom) if (r.c == c) return r.v; return 0; }
static uint64_t roman_value(const std::string& s, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; ++i) { if (i + 1 < n && rv(s[i]) < rv(s[i + 1])) v -= rv(s[i]); else v += rv(s[i]); } return v; }
static std::string to_roman(unsigned n)
{
	static const struct { const char* s; unsigned v; } t[] = { { "Q", 10000 }, { "MQ", 9000 }, { "P", 5000 }, { "MP", 4000 }, { "M", 1000 }, { "CM", 900 }, { "D", 500 }, { "CD", 400 }, { "C", 100 }, { "XC", 90 }, { "L", 50 }, { "XL", 40 }, { "X", 10 }, { "IX", 9 }, { "V", 5 }, { "IV", 4 }, { "I", 1 } };
	std::string r; for (auto& e : t) for (; n >= e.v; n -= e.v) r += e.s; return r;
}
MC_HARNESS(roman_numerals)
{
	// every number, spelled the usual way, followed by anything else
	size_t k = mc::choose(3), block = mc::choose(40); mc::job();
	auto all = [&](auto l, auto z) {
		typedef decltype(z) T; auto p = l.roman();
		for (unsigned n = std::max(1u, (unsigned)block * 1000); n < (block + 1) * 1000; ++n) for (const char* tail : { "", "a", " I" }) {
			std::string s = to_roman(n); Fin fin; match<T>("num.roman", p, s + tail, Iv(0, s.size()), fin);
			MC_CHECK(p->value == n, "num.roman", "%s: %zu", s.c_str(), p->value);
			if (n < 5000 && n >= 4000) { s = std::string(4, 'M') + to_roman(n - 4000); match<T>("num.roman", p, s, Iv(0, s.size()), fin); MC_CHECK(p->value == n, "num.roman", "%s: %zu", s.c_str(), p->value); }
		}
	};
	if (k == pc::wide) all(pc::Leaf<wchar_t>{ false }, L'a'); else all(pc::Leaf<char>{ k == pc::sgml }, 'a');
	mc::state(k * 40 + block); mc::outcome(block); mc::nontrivial();
}
MC_HARNESS(roman_words)
{
	// of any sequence of symbols, what is matched has the value of what is matched, and nothing odd is matched
	WORDS((S{ "I", "V", "X", "L", "C", "D", "M", "P", "Q", "a" }), L(6), true, l.roman(), {
		const BoundText<T> w(s);
		bool ok = p->match(w.data(), 0, w.size()); size_t e = ok ? p->interval.end : 0;
		MC_CHECK(ok == (!s.empty() && rv(s[0])), "num.roman", "%s: %s", q(s).c_str(), sh(p->interval).c_str());
		fin.see(ok, e);
		if (!ok) return;
		MC_CHECK(e && e <= s.size() && p->value == roman_value(s, e), "num.roman", "%s: %zu in %s", q(s).c_str(), p->value, sh(p->interval).c_str());
		for (size_t i = 0; i + 1 < e; ++i) {
			unsigned a = rv(s[i]), b = rv(s[i + 1]);
			MC_CHECK(a >= b || ((a == 1 || a == 10 || a == 100 || a == 1000) && (b == a * 5 || b == a * 10)), "num.roman", "%s: %s", q(s).c_str(), sh(p->interval).c_str());
			if (a < b) MC_CHECK(!i || rv(s[i - 1]) >= b, "num.roman", "%s: %s", q(s).c_str(), sh(p->interval).c_str());
		}
		// as long as symbols do not grow, and are not repeated
		size_t n = 1; while (n < s.size() && rv(s[n]) && rv(s[n]) <= rv(s[n - 1]) && (n < 3 || s[n] != s[n - 1] || s[n] != s[n - 2] || s[n] != s[n - 3] || s[n] == s[0])) ++n;
		// the last of them may belong to a symbol after it
		MC_CHECK(e >= n - (n < s.size() && rv(s[n]) > rv(s[n - 1])) , "num.roman", "%s: %s only", q(s).c_str(), sh(p->interval).c_str());
	});
}
MC_HARNESS(fractions)
{
	WORDS((S{ "1", "23", "/", " ", "a" }), L(6), true, l.fraction(), {
		Iv n = digits(s, 0); Iv b = n ? lit(s, n.end, "/") : Iv(); Iv d = b ? digits(s, b.end) : Iv(); bool ok = (bool)d;
		match<T>("num.fraction", p, s, ok ? Iv(0, d.end) : Iv(), fin);
		part("num.fraction", s, "numerator", p->numerator, ok ? n : Iv()); part("num.fraction", s, "line", p->fraction_line, ok ? b : Iv()); part("num.fraction", s, "denominator", p->denominator, d);
	});
}
MC_HARNESS(scores)
{
	WORDS((S{ "1", "23", ":", " ", "\n", "a" }), L(6), true, std::make_shared<stdex::parser::basic_score<T>>(l.int10(), l.cu(':'), l.int10(), l.space()), {
		for (int flags : { stdex::parser::match_default, stdex::parser::match_multiline }) {
			// whatever the flags, spaces do not break the line
			Iv h = digits(s, 0); Iv c = h ? lit(s, skip(s, h.end, " "), ":") : Iv(); Iv g = c ? digits(s, skip(s, c.end, " ")) : Iv(); bool ok = (bool)g;
			match<T>("num.score", p, s, ok ? Iv(0, g.end) : Iv(), fin, flags);
			part("num.score", s, "home", p->home, ok ? h : Iv()); part("num.score", s, "separator", p->separator, ok ? c : Iv()); part("num.score", s, "guest", p->guest, g);
		}
	});
}
struct Sign { Iv pos, neg, spec; size_t end; Sign(const std::string& s, const char* special) : pos(lit(s, 0, "+")), neg(lit(s, 0, "-")), spec(lit(s, 0, special)), end(0)
{ if (pos) { neg.invalidate(); spec.invalidate(); end = pos.end; } else if (neg) { spec.invalidate(); end = neg.end; } else if (spec) end = spec.end; }
	void none() { pos.invalidate(); neg.invalidate(); spec.invalidate(); } };
template <class P> static void signs(const char* key, const std::string& s, P& p, Sign g, bool ok)
{
	if (!ok) g.none();
	part(key, s, "positive sign", p->positive_sign, g.pos); part(key, s, "negative sign", p->negative_sign, g.neg); part(key, s, "special sign", p->special_sign, g.spec);
}
MC_HARNESS(signed_numerals)
{
	WORDS((S{ "1", "23", "+", "-", "~", "a" }), L(6), true, std::make_shared<stdex::parser::basic_signed_numeral<T>>(l.cu('+'), l.cu('-'), l.cu('~'), l.int10()), {
		Sign g(s, "~"); Iv n = digits(s, g.end);
		match<T>("num.signed", p, s, n ? Iv(0, n.end) : Iv(), fin);
		signs("num.signed", s, p, g, (bool)n); part("num.signed", s, "number", p->number, n);
	});
}
MC_HARNESS(optional_signs)
{
	// signs that are not given are not looked for
	size_t mask = mc::choose(8), what = mc::choose(4), k = mc::choose(2), n = mc::choose(L(4)); std::string s, al = "+-~1$.e";
	mc::job();
	for (size_t i = 0; i < n; ++i) s += al[mc::choose(al.size())];
	auto test = [&](auto l, auto z) {
		typedef decltype(z) T;
		auto sg = [&](size_t i, char c) { return mask >> i & 1 ? l.cu(c) : pc::SP<T>(); };
		auto ps = sg(0, '+'), ns = sg(1, '-'), ss = sg(2, '~');
		pc::SP<T> p;
		if (what == 0) p = std::make_shared<stdex::parser::basic_signed_numeral<T>>(ps, ns, ss, l.int10());
		else if (what == 1) p = std::make_shared<stdex::parser::basic_mixed_numeral<T>>(ps, ns, ss, l.int10(), l.space(), l.fraction());
		else if (what == 2) p = std::make_shared<stdex::parser::basic_scientific_numeral<T>>(ps, ns, ss, l.int10(), l.cu('.'), l.int10(), mask & 4 ? l.cu('e') : nullptr, ps, ns, mask & 2 ? l.int10() : nullptr);
		else p = std::make_shared<stdex::parser::basic_monetary_numeral<T>>(ps, ns, ss, l.cu('$'), l.int10(), l.cu('.'), l.int10());
		size_t e = 0; bool ok;
		if (!s.empty() && ((s[0] == '+' && mask & 1) || (s[0] == '-' && mask & 2) || (s[0] == '~' && mask & 4))) ++e;
		if (what == 3) { ok = e < s.size() && s[e] == '$'; ++e; } else ok = true;
		Iv i = ok ? digits(s, e) : Iv(); if (i) e = i.end;
		Iv d = ok && what >= 2 && lit(s, e, ".") ? digits(s, e + 1) : Iv(); if (d) e = d.end;
		ok = i || d;
		if (ok && what == 2 && mask & 4 && mask & 2 && lit(s, e, "e")) { size_t x = e + 1; if (x < s.size() && ((s[x] == '+' && mask & 1) || s[x] == '-')) ++x; Iv y = digits(s, x); if (y) e = y.end; }
		Fin fin; match<T>("num.optional", p, s, ok ? Iv(0, e) : Iv(), fin); p->invalidate(); if (ok) mc::nontrivial();
	};
	if (k) test(pc::Leaf<wchar_t>{ false }, L'a'); else test(pc::Leaf<char>{ false }, 'a');
	mc::state(mc::hash(s, mask * 8 + what * 2 + k)); mc::outcome(mc::hash(s, what));
}
MC_HARNESS(mixed_numerals)
{
	WORDS((S{ "1", "23", "/", " ", "\n", "+", "-", "~" }), L(6), true, l.mixed(), {
		for (int flags : { stdex::parser::match_default, stdex::parser::match_multiline }) {
			Sign g(s, "~");
			auto fr = [&](size_t at) { Iv n = digits(s, at); Iv d = n && lit(s, n.end, "/") ? digits(s, n.end + 1) : Iv(); return d ? Iv(at, d.end) : Iv(); };
			Iv i = digits(s, g.end); Iv f = fr(g.end);
			if (f) i.invalidate();
			else if (i) { size_t e = skip(s, i.end, " "); f = e > i.end ? fr(e) : Iv(); }
			bool ok = i || f;
			match<T>("num.mixed", p, s, ok ? Iv(0, f ? f.end : i.end) : Iv(), fin, flags);
			signs("num.mixed", s, p, g, ok); part("num.mixed", s, "integer", p->integer, i); part("num.mixed", s, "fraction", p->fraction, f);
		}
	});
}
MC_HARNESS(scientific_numerals)
{
	WORDS((S{ "0", "1", "20", ".", "e", "+", "-", "~" }), L(6), true, l.scientific(), {
		Sign g(s, "~"); size_t e = g.end;
		Iv i = digits(s, e); if (i) e = i.end;
		Iv pt = lit(s, e, "."); Iv d = pt ? digits(s, pt.end) : Iv(); if (d) e = d.end; else pt.invalidate();
		bool ok = i || d; Iv ex; Iv ep; Iv en; Iv x;
		size_t mant = e;
		if (ok && (ex = lit(s, e, "e"))) { ep = lit(s, ex.end, "+"); en = lit(s, ex.end, "-"); x = digits(s, ep ? ep.end : en ? en.end : ex.end); if (x) e = x.end; else { ex.invalidate(); ep.invalidate(); en.invalidate(); } }
		bool m = match<T>("num.scientific", p, s, ok ? Iv(0, e) : Iv(), fin);
		signs("num.scientific", s, p, g, ok);
		part("num.scientific", s, "integer", p->integer, i); part("num.scientific", s, "separator", p->decimal_separator, pt); part("num.scientific", s, "decimal", p->decimal, d);
		part("num.scientific", s, "exponent symbol", p->exponent_symbol, ex); part("num.scientific", s, "exponent +", p->positive_exp_sign, ep); part("num.scientific", s, "exponent -", p->negative_exp_sign, en); part("num.scientific", s, "exponent", p->exponent, x);
		if (m) {
			std::string t = s.substr(0, e); if (t[0] == '~') t[0] = '+';
			double want = strtod(t.c_str(), nullptr); double got = p->value;
			if (dec(s, i) == UINT64_MAX || dec(s, d) == UINT64_MAX) return; // see scientific_digits
			MC_CHECK(want == got || fabs(want - got) <= 1e-13 * fabs(want) || (fabs(want) < 1e-300 && fabs(got) < 1e-300), "num.scientific", "%s: %.17g", q(s).c_str(), got);
		} else MC_CHECK(p->value != p->value, "num.scientific", "%s: %.17g without a match", q(s).c_str(), p->value);
		(void)mant;
	});
}
// More digits than an integer holds.
MC_HARNESS(scientific_digits)
{
	size_t k = mc::choose(3), i = mc::choose(40), d = mc::choose(40), e = mc::choose(5), kind = mc::choose(4); mc::job();
	static const char* const exps[] = { "", "e3", "e-3", "e-25", "e400" }; static const char fill[] = { '0', '1', '9', 0 };
	auto all = [&](auto l, auto z) {
		typedef decltype(z) T; auto p = l.scientific(); std::string s; Fin fin;
		for (size_t n = 0; n < i; ++n) s += fill[kind] ? fill[kind] : (char)('0' + (n + 1) % 10);
		if (d) { s += '.'; for (size_t n = 0; n < d; ++n) s += fill[kind] ? fill[kind] : (char)('0' + (n + 1) % 10); }
		Iv di = i ? Iv(0, i) : Iv(); Iv dd = d ? Iv(i + 1, i + 1 + d) : Iv(); s += exps[e];
		if (!match<T>("num.scientific", p, s, i || d ? Iv(0, s.size()) : Iv(), fin)) return;
		double want = strtod(s.c_str(), nullptr); double got = p->value; uint64_t vi = dec(s, di); uint64_t vd = dec(s, dd);
		auto near = [](double a, double b) { return a == b || fabs(a - b) <= 1e-13 * fabs(a) || (fabs(a) < 1e-300 && fabs(b) < 1e-300); };
		if (vi == UINT64_MAX || vd == UINT64_MAX) {
			// what a part that is out of range comes to
			double known = (double)vi + (double)vd * pow(10.0, -(double)d); if (known != 0 && e) known *= pow(10.0, atof(exps[e] + 1));
			MC_CHECK(near(want, got) || !near(known, got), "num.scientific.digits", "%s: %.17g", q(s).c_str(), got);
		}
		MC_CHECK(near(want, got), "num.scientific", "%s: %.17g", q(s).c_str(), got);
		mc::outcome(mc::hmix(mc::hmix(i, d), e)); mc::nontrivial();
	};
	if (k == pc::wide) all(pc::Leaf<wchar_t>{ false }, L'a'); else all(pc::Leaf<char>{ k == pc::sgml }, 'a');
	mc::state(mc::hmix(i * 40 + d, kind));
}
MC_HARNESS(monetary_numerals)
{
	WORDS((S{ "1", "20", ".", "$", "-", "+", "~" }), L(6), true, l.monetary(), {
		Sign g(s, "~"); size_t e = g.end;
		Iv c = lit(s, e, "$"); Iv i; Iv pt; Iv d;
		if (c) { e = c.end; i = digits(s, e); if (i) e = i.end; pt = lit(s, e, "."); d = pt ? digits(s, pt.end) : Iv(); if (d) e = d.end; else pt.invalidate(); }
		bool ok = i || d; if (!ok) c.invalidate();
		match<T>("num.monetary", p, s, ok ? Iv(0, e) : Iv(), fin);
		signs("num.monetary", s, p, g, ok);
		part("num.monetary", s, "currency", p->currency, c); part("num.monetary", s, "integer", p->integer, i); part("num.monetary", s, "separator", p->decimal_separator, pt); part("num.monetary", s, "decimal", p->decimal, d);
	});
}
