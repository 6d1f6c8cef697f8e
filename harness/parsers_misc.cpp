// P05: dates, times, angles, phone numbers, emoticons and chemical formulas.
#include "pwords.h"
using namespace pw;
typedef std::vector<std::string> S;
static size_t L(size_t quick) { return mc::thorough() ? quick + 3 : quick + 2; }
static const int FL[] = { stdex::parser::match_default, stdex::parser::match_multiline };

// --- dates
static const char* const order[] = { "dmy", "mdy", "ymd", "ym", "my", "dm", "md" }; // in order of date_format_t bits, and of precedence
struct Date { Iv all, f[3]; int format = 0; }; // f: d, m, y
static bool real_day(uint64_t d, uint64_t m) { static const int n[] = { 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m >= 1 && m <= 12 && d >= 1 && d <= (uint64_t)n[m - 1]; }
static Date date(const std::string& s, int mask)
{
	for (int k = 0; k < 7; ++k) {
		if (!(mask >> k & 1)) continue;
		Date r; size_t p = 0, n = strlen(order[k]); char sep = 0; bool ok = true;
		for (size_t i = 0; i < n && ok; ++i) {
			if (i) { p = skip(s, p, " "); ok = p < s.size() && (s[p] == '.' || s[p] == '/') && (!sep || s[p] == sep); if (!ok) break; sep = s[p]; p = skip(s, p + 1, " "); }
			Iv x = digits(s, p); ok = (bool)x; r.f[strchr("dmy", order[k][i]) - "dmy"] = x; p = x.end;
		}
		if (!ok || !real_day(r.f[0] ? dec(s, r.f[0]) : 1, dec(s, r.f[1]))) continue;
		// a day and a month may end with a separator too
		if (k >= 5) { size_t e = skip(s, p, " "); if (e < s.size() && s[e] == sep) p = e + 1; }
		r.all = Iv(0, p); r.format = 1 << k;
		return r;
	}
	return Date();
}
template <class T, class P> static void check_date(P& p, const std::string& s, int mask, Fin& fin, int flags = 0)
{
	Date r = date(s, mask); const char* key = "misc.date";
	match<T>(key, p, s, r.all, fin, flags);
	MC_CHECK(p->format == r.format, key, "%s: format %x instead of %x", q(s).c_str(), p->format, r.format);
	part(key, s, "day", p->day, r.f[0]); part(key, s, "month", p->month, r.f[1]); part(key, s, "year", p->year, r.f[2]);
	if (r.all) MC_CHECK((!r.f[0] || p->day->value == dec(s, r.f[0])) && p->month->value == dec(s, r.f[1]) && (!r.f[2] || p->year->value == dec(s, r.f[2])), key, "%s: %zu %zu %zu", q(s).c_str(), p->day->value, p->month->value, p->year->value);
}
MC_HARNESS(date_formats)
{
	// every set of allowed formats
	int mask = (int)mc::choose(128); size_t k = mc::choose(2), n = mc::choose(6); mc::job();
	static const S tok{ "1", "13", "31", "2", ".", "/" };
	Fin fin; std::string pre; for (size_t i = 0; i + 3 < n; ++i) pre += mc::pick(tok);
	auto test = [&](auto l, auto z) { typedef decltype(z) T; auto p = l.date(mask);
		auto go = [&](const std::string& s) { check_date<T>(p, s, mask, fin); };
		if (!n) go(""); for (auto& a : tok) { if (n == 1) go(a); if (n >= 2) for (auto& b : tok) { if (n == 2) go(a + b); else if (n >= 3) for (auto& c : tok) go(pre + a + b + c); } } };
	if (k) test(pc::Leaf<wchar_t>{ false }, L'a'); else test(pc::Leaf<char>{ false }, 'a');
	mc::state(mc::hash(pre, (mask * 2 + k) * 8 + n)); mc::outcome(fin.h); if (fin.any) mc::nontrivial();
}
MC_HARNESS(dates_all) { WORDS((S{ "1", "12", "31", "2000", ".", "/", " ", "\n" }), L(5), true, l.date(0x7f), { for (int f : FL) check_date<T>(p, s, 0x7f, fin, f); }); }
MC_HARNESS(dates_dmy) { WORDS((S{ "1", "13", "30", ".", "/", " ", "\n" }), L(5), true, l.date(0x31), { for (int f : FL) check_date<T>(p, s, 0x31, fin, f); }); }
MC_HARNESS(dates_short) { WORDS((S{ "1", "13", "30", ".", "/", " ", "\n" }), L(5), true, l.date(0x60), { for (int f : FL) check_date<T>(p, s, 0x60, fin, f); }); }
MC_HARNESS(calendar)
{
	int fmt = (int)mc::choose(7); size_t k = mc::choose(3); mc::job();
	auto test = [&](auto l, auto z) { typedef decltype(z) T; auto p = l.date(1 << fmt); Fin fin;
		for (int d = 0; d <= 40; ++d) for (int m = 0; m <= 20; ++m) for (const char* sp : { "", " " }) {
			std::string s; for (const char* o = order[fmt]; *o; ++o) { if (o != order[fmt]) s = s + "." + sp; s += *o == 'y' ? "1999" : std::to_string(*o == 'd' ? d : m); }
			check_date<T>(p, s, 1 << fmt, fin);
		} };
	if (k == pc::wide) test(pc::Leaf<wchar_t>{ false }, L'a'); else test(pc::Leaf<char>{ k == pc::sgml }, 'a');
	mc::state(fmt * 3 + k); mc::outcome(fmt); mc::nontrivial();
}
// --- times
template <class T, class P> static void check_time(P& p, const std::string& s, Fin& fin, bool secs, bool millis)
{
	const char* key = "misc.time";
	Iv h = digits(s, 0), m, x, ms; char sep = h && h.end < s.size() && strchr(":.", s[h.end]) ? s[h.end] : 0;
	if (sep) { m = digits(s, h.end + 1); if (m && dec(s, m) >= 60) m.invalidate(); }
	if (m && secs && m.end < s.size() && s[m.end] == sep) { x = digits(s, m.end + 1); if (x && dec(s, x) >= 60) x.invalidate(); }
	if (x && millis && lit(s, x.end, ",")) { ms = digits(s, x.end + 1); if (ms && dec(s, ms) >= 1000) ms.invalidate(); }
	if (!m) h.invalidate();
	match<T>(key, p, s, m ? Iv(0, ms ? ms.end : x ? x.end : m.end) : Iv(), fin);
	part(key, s, "hour", p->hour, h); part(key, s, "minute", p->minute, m); if (p->second) part(key, s, "second", p->second, x); if (p->millisecond) part(key, s, "millisecond", p->millisecond, ms);
}
MC_HARNESS(times) { WORDS((S{ "0", "59", "60", "999", "1000", ":", ".", "," }), L(5), true, l.time(), { check_time<T>(p, s, fin, true, true); }); }
MC_HARNESS(times_optional)
{
	size_t o = mc::choose(4); // without seconds, milliseconds, their separator
	switch (o) {
	case 0: WORDS((S{ "1", "60", ":", ".", "," }), L(5), true, (std::make_shared<stdex::parser::basic_time<T>>(l.int10(), l.int10(), nullptr, nullptr, l.set(":."), nullptr)), { check_time<T>(p, s, fin, false, false); }); break;
	case 1: WORDS((S{ "1", "60", ":", ".", "," }), L(5), true, (std::make_shared<stdex::parser::basic_time<T>>(l.int10(), l.int10(), l.int10(), nullptr, l.set(":."), l.cu(','))), { check_time<T>(p, s, fin, true, false); }); break;
	case 2: WORDS((S{ "1", "60", ":", ".", "," }), L(5), true, (std::make_shared<stdex::parser::basic_time<T>>(l.int10(), l.int10(), l.int10(), l.int10(), l.set(":."), nullptr)), { check_time<T>(p, s, fin, true, false); }); break;
	case 3: WORDS((S{ "1", "60", ":", ".", "," }), L(5), true, (std::make_shared<stdex::parser::basic_time<T>>(l.int10(), l.int10(), nullptr, l.int10(), l.set(":."), l.cu(','))), { check_time<T>(p, s, fin, false, false); }); break;
	}
}
// --- angles
template <class T, class P> static void check_angle(P& p, const std::string& s, Fin& fin, bool secs, bool secsep, bool decs)
{
	const char* key = "misc.angle"; size_t e = 0;
	Iv d = digits(s, 0), ds = d ? lit(s, d.end, "d") : Iv(); if (ds) e = ds.end; else d.invalidate();
	Iv m = digits(s, e), ms = m && dec(s, m) < 60 ? lit(s, m.end, "'") : Iv(); if (ms) e = ms.end; else m.invalidate();
	Iv x = secs ? digits(s, e) : Iv(), xs; if (x && dec(s, x) >= 60) x.invalidate(); if (x) { e = x.end; if (secsep && (xs = lit(s, e, "\""))) e = xs.end; }
	bool ok = d || m || x; Iv f;
	if (ok && decs && lit(s, e, ".")) { Iv n = digits(s, e + 1); if (n) { f = Iv(e, n.end); e = n.end; } }
	match<T>(key, p, s, ok ? Iv(0, e) : Iv(), fin);
	part(key, s, "degree", p->degree, d); part(key, s, "degree sign", p->degree_separator, ds); part(key, s, "minute", p->minute, m); part(key, s, "minute sign", p->minute_separator, ms);
	if (p->second) part(key, s, "second", p->second, x); if (p->second_separator) part(key, s, "second sign", p->second_separator, xs); if (p->decimal) part(key, s, "decimals", p->decimal, f);
}
#define ANGLE(sec, sep, dec) std::make_shared<stdex::parser::basic_angle<T>>(l.int10(), l.cu('d'), l.int10(), l.cu('\''), sec ? l.int10() : nullptr, sep ? l.cu('"') : nullptr, dec ? l.seq({ l.cu('.'), l.int10() }) : nullptr)
MC_HARNESS(angles) { WORDS((S{ "1", "59", "60", "d", "'", "\"", "." }), L(5), true, l.angle(), { check_angle<T>(p, s, fin, true, true, true); }); }
MC_HARNESS(angles_optional)
{
	size_t o = mc::choose(7);
#define A(n, a, b, c) case n: WORDS((S{ "1", "60", "d", "'", "\"", "." }), L(5), true, (ANGLE(a, b, c)), { check_angle<T>(p, s, fin, a, b, c); }); break;
	switch (o) { A(0, false, false, false) A(1, true, false, false) A(2, true, true, false) A(3, true, false, true) A(4, false, false, true) A(5, false, true, true) A(6, false, true, false) }
}
// --- phone numbers
template <class T, class P> static void check_phone(P& p, const std::string& s, Fin& fin, int flags)
{
	// an optional plus, then digits; at most one group of digits in a pair of parentheses; between them single separators or spaces, but no
	// separators next to parentheses, and no line breaks; the number ends with a digit or a parenthesis
	std::string v, safe; size_t e = 0, end = 0; char open = 0; int paren = 0; bool digit = false, closed = false, has = false;
	if (lit(s, 0, "+")) { v = "+"; e = 1; }
	safe = v;
	for (; e < s.size(); ++e) {
		char c = s[e];
		if (c >= '0' && c <= '9') { v += c; if (!open) { safe = v; end = e + 1; has = true; } digit = true; closed = false; }
		else if (!paren && strchr("([", c)) { v += c; open = c; paren = 1; digit = closed = false; }
		else if (open && c == (open == '(' ? ')' : ']')) { v += c; open = 0; safe = v; end = e + 1; digit = false; closed = true; }
		else if (!open && digit && strchr("-/", c)) digit = false;
		else if ((digit || closed) && c == ' ') digit = closed = false;
		else break;
	}
	bool ok = match<T>("misc.phone", p, s, has ? Iv(0, end) : Iv(), fin, flags);
	MC_CHECK(p->value == pc::W<T>(ok ? safe : ""), "misc.phone", "%s: normalized otherwise than %s", q(s).c_str(), safe.c_str());
}
MC_HARNESS(phones) { WORDS((S{ "1", "23", "+", "(", ")", "[", "]", "-", " ", "\n" }), L(5), false, l.phone(), { for (int f : FL) check_phone<T>(p, s, fin, f); }); }
MC_HARNESS(phones_sgml) { WORDS((S{ "1", "(", ")", "-", " " }), L(6), true, l.phone(), { check_phone<T>(p, s, fin, 0); }); }
// --- emoticons
template <class T, class P> static void check_emoticon(P& p, const std::string& s, Fin& fin, bool whole, bool apex, bool nose)
{
	const char* key = "misc.emoticon";
	Iv w = whole ? lit(s, 0, "<3") : Iv(), a, y, n, m; size_t hit = SIZE_MAX;
	if (!w) {
		size_t e = 0; if (apex && (a = Iv(0, 1), s.empty() || !strchr("O0", s[0]))) a.invalidate(); if (a) e = 1;
		auto mouth = [&](size_t at) { if (at >= s.size() || !strchr(")(", s[at])) return Iv(); hit = s[at] == '('; size_t x = at; while (x < s.size() && s[x] == s[at]) ++x; return Iv(at, x); };
		if (e < s.size() && strchr(":;", s[e])) {
			y = Iv(e, e + 1); ++e;
			if (nose && e < s.size() && strchr("-o", s[e]) && (m = mouth(e + 1))) n = Iv(e, e + 1); else m = mouth(e);
		}
		if (!m) { a.invalidate(); y.invalidate(); }
	}
	match<T>(key, p, s, w ? w : m ? Iv(0, m.end) : Iv(), fin);
	if (p->emoticon) part(key, s, "whole", p->emoticon, w); if (p->apex) part(key, s, "apex", p->apex, a); part(key, s, "eyes", p->eyes, y); if (p->nose) part(key, s, "nose", p->nose, n); part(key, s, "mouth", p->mouth, m);
	MC_CHECK(p->mouth->hit_offset == hit, key, "%s: mouth %zd instead of %zd", q(s).c_str(), (ssize_t)p->mouth->hit_offset, (ssize_t)hit);
}
#define EMO(w, a, n) std::make_shared<stdex::parser::basic_emoticon<T>>(w ? l.str("<3") : nullptr, a ? pc::SP<T>(l.set("O0")) : nullptr, l.set(":;"), n ? pc::SP<T>(l.set("-o")) : nullptr, l.set(")("))
MC_HARNESS(emoticons)
{
	size_t o = mc::choose(8);
#define E(i, w, a, n) case i: WORDS((S{ "O", ":", ";", "-", ")", "(", "<3" }), L(5), true, (EMO(w, a, n)), { check_emoticon<T>(p, s, fin, w, a, n); }); break;
	switch (o) { E(0, false, false, false) E(1, true, false, false) E(2, false, true, false) E(3, true, true, false) E(4, false, false, true) E(5, true, false, true) E(6, false, true, true) E(7, true, true, true) }
}
// --- chemical formulas
MC_HARNESS(formulas)
{
	WORDS((S{ "Na", "H", "O", "2", "31", "+", "-", "h", "N" }), L(5), true, l.chem(), {
		for (int flags : { stdex::parser::match_default, stdex::parser::match_case_insensitive }) {
			size_t e = 0; bool dig = false, ch = false;
			for (;;) { Iv x = lit(s, e, "Na"); if (!x) x = lit(s, e, "H"); if (!x) x = lit(s, e, "O"); if (!x) break; e = x.end; Iv d = digits(s, e); if (d) { dig = true; e = d.end; } }
			bool ok = e > 0; if (ok && e < s.size() && strchr("+-", s[e])) { ++e; ch = true; }
			match<T>("misc.chemical", p, s, ok ? Iv(0, e) : Iv(), fin, flags);
			MC_CHECK(p->has_digits == dig && p->has_charge == ch, "misc.chemical", "%s: %s digits, %s charge", q(s).c_str(), p->has_digits ? "with" : "no", p->has_charge ? "with" : "no");
		}
	});
}
