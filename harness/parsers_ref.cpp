// P06: bank account numbers and payment references: what is accepted, and that the check digits decide.
#include "pwords.h"
using namespace pw;
static std::string up(std::string s) { for (auto& c : s) c = (char)toupper(c); return s; }
static unsigned mod97(const std::string& s)
{
	unsigned r = 0;
	for (char c : s) { if (c >= '0' && c <= '9') r = (r * 10 + (unsigned)(c - '0')) % 97; else { unsigned v = (unsigned)(c - 'A' + 10); r = (r * 100 + v) % 97; } }
	return r;
}
// ISO 13616 registry: country, length, check digits if always the same
static const char registry[] = "AD24 AE23 AL28 AO25 AT20 AZ28 BA20=39 BE16 BF28 BG22 BH22 BI27 BJ28 BR29 BY28 CF27 CG27 CH21 CI28 CM27 CR22 CV25 CY28 CZ24 DE22 DJ27 DK18 DO28 DZ26 EE20 EG29 ES24 FI18 FO18 FR27 "
	"GA27 GB22 GE22 GI23 GL18 GQ27 GR27 GT28 GW25 HN28 HR21 HU28 IE22 IL23 IQ23 IR26 IS26 IT27 JO30 KM27 KW30 KZ20 LB28 LC32 LI21 LT20 LU20 LV21 LY25 MA28 MC27 MD24 ME22=25 MG27 MK19=07 ML28 MR27=13 MT31 MU30 MZ25 "
	"NE28 NI32 NL18 NO15 PK24 PL28 PS29 PT25=50 QA29 RO24 RS22=35 RU33 SA24 SC31 SD18 SE24 SI19=56 SK24 SM27 SN28 ST25 SV28 TD27 TG28 TL23=38 TN24=59 TR26 UA29 VA22 VG24 XK20 ";
static size_t iban_length(const std::string& cc, std::string& fixed)
{
	fixed.clear();
	const char* p = cc.size() == 2 ? strstr(registry, cc.c_str()) : nullptr;
	if (!p || (p != registry && p[-1] != ' ')) return 0;
	size_t n = strtoul(p + 2, nullptr, 10); if (p[4] == '=') fixed.assign(p + 5, 2);
	return n;
}
template <class P> static std::string z(const P* p) { std::string s; for (; *p; ++p) s += (char)*p; return s; }
template <class T, class P> static void check_iban(P& p, const std::string& s, Fin& fin, int flags = 0)
{
	std::string t = flags ? up(s) : s, fixed, b; Iv w; bool valid = false;
	size_t n = iban_length(t.substr(0, 2), fixed);
	if (n && t.size() >= 4 && isdigit((unsigned char)t[2]) && isdigit((unsigned char)t[3]) && (fixed.empty() || fixed == t.substr(2, 2))) {
		size_t e = 4; for (; b.size() < n - 4 && e < t.size(); ++e) { if (t[e] == ' ') continue; if (!(isdigit((unsigned char)t[e]) || (t[e] >= 'A' && t[e] <= 'Z'))) break; b += t[e]; }
		if (b.size() == n - 4) { w = Iv(0, e); valid = mod97(b + t.substr(0, 4)) == 1; }
	}
	if (match<T>("ref.iban", p, s, w, fin, flags))
		MC_CHECK(z(p->country) == t.substr(0, 2) && z(p->check_digits) == t.substr(2, 2) && z(p->bban) == b && p->is_valid == valid, "ref.iban", "%s: %s %s %s, %s", q(s).c_str(), z(p->country).c_str(), z(p->check_digits).c_str(), z(p->bban).c_str(), p->is_valid ? "valid" : "not valid");
	else MC_CHECK(!p->country[0] && !p->check_digits[0] && !p->bban[0] && !p->is_valid, "ref.iban", "%s: rejected, yet %s", q(s).c_str(), z(p->bban).c_str());
}
template <class F> static void both(F f) { if (mc::flip()) { mc::job(); pc::Leaf<wchar_t> l{ false }; f(l, L'a'); } else { mc::job(); pc::Leaf<char> l{ false }; f(l, 'a'); } }
template <class T> static auto make_iban(const pc::Leaf<T>& l) { return std::make_shared<stdex::parser::basic_iban<T>>(l.space()); }

MC_HARNESS(iban_countries)
{
	// every pair of letters with every pair of check digits
	size_t a = mc::choose(26), b = mc::choose(26), pat = mc::choose(3);
	both([&](auto l, auto zz) {
		typedef decltype(zz) T; auto p = make_iban(l); Fin fin;
		std::string cc{ (char)('A' + a), (char)('A' + b) }, body; for (size_t i = 0; i < 31; ++i) body += pat == 0 ? '0' : pat == 1 ? "9081726354"[i % 10] : i % 3 ? (char)('A' + (i * 7) % 26) : '5';
		std::string fixed; size_t n = iban_length(cc, fixed);
		for (int c = 0; c < 100; ++c) {
			char cd[3] = { (char)('0' + c / 10), (char)('0' + c % 10), 0 };
			for (size_t k : { n ? n - 5 : 10, n ? n - 4 : 11, (size_t)31 }) { check_iban<T>(p, cc + cd + body.substr(0, k), fin); if (n) mc::nontrivial(); }
		}
		mc::state((a * 26 + b) * 3 + pat); mc::outcome(fin.h);
	});
}
MC_HARNESS(iban_errors)
{
	// any single character replaced, and any two swapped, of numbers that are right
	static const char* const good[] = { "SI56263300012039086", "NO9386011117947", "GB29NWBK60161331926819", "MT84MALT011000012345MTLCAST001S", "BR9700360305000010009795493P1", "LC55HEMM000100010012001200023015", "FR1420041010050500013M02606", "RU0204452560040702810412345678901", "XK051212012345678906", "DE89370400440532013000" };
	std::string g = good[mc::choose(10)]; size_t at = mc::choose(g.size());
	both([&](auto l, auto zz) {
		typedef decltype(zz) T; auto p = make_iban(l); Fin fin;
		check_iban<T>(p, g, fin); MC_CHECK(p->is_valid, "ref.iban", "%s: not valid", g.c_str());
		for (char c : std::string("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZaz -./:@[`{\x01")) { std::string s = g; s[at] = c; check_iban<T>(p, s, fin); if (s != g && isdigit((unsigned char)c) && isdigit((unsigned char)g[at]) && at >= 2) MC_CHECK(!p->is_valid, "ref.iban", "%s passes for %s", s.c_str(), g.c_str()); }
		for (size_t o = at + 1; o < g.size(); ++o) { std::string s = g; std::swap(s[at], s[o]); check_iban<T>(p, s, fin); }
		for (const char* in : { " ", "  ", "-", "a" }) { std::string s = g; s.insert(at, in); check_iban<T>(p, s, fin); check_iban<T>(p, s + "X", fin); }
		std::string s = g; s[at] = (char)tolower(s[at]); check_iban<T>(p, s, fin, stdex::parser::match_case_insensitive); if (s != g) check_iban<T>(p, s, fin);
		check_iban<T>(p, g.substr(0, at), fin); check_iban<T>(p, g.substr(at), fin);
		mc::state(mc::hash(g, at)); mc::outcome(fin.h); mc::nontrivial();
	});
}
MC_HARNESS(iban_words)
{
	WORDS((std::vector<std::string>{ "SI", "56", "2633", "0001", "2039", "086", " ", "A", "si" }), mc::thorough() ? 7 : 6, false, make_iban(l), { for (int f : { 0, (int)stdex::parser::match_case_insensitive }) check_iban<T>(p, s, fin, f); });
}
// --- creditor references (ISO 11649)
template <class T, class P> static void check_creditor(P& p, const std::string& s, Fin& fin, int flags = 0)
{
	std::string t = flags ? up(s) : s, r; Iv w; bool ok = t.size() >= 4 && !t.compare(0, 2, "RF") && isdigit((unsigned char)t[2]) && isdigit((unsigned char)t[3]), valid = false;
	if (ok) {
		size_t e = 4, last = 4;
		for (size_t in = 4; e < t.size();) { // groups of four, each with a space before it at most
			if (in == 4) { in = 0; if (t[e] == ' ') { ++e; continue; } }
			if (!(isdigit((unsigned char)t[e]) || (t[e] >= 'A' && t[e] <= 'Z'))) break;
			r += t[e]; last = ++e; ++in;
		}
		if (!r.empty() && r.size() <= 21) { w = Iv(0, last); valid = mod97(r + "RF" + t.substr(2, 2)) == 1; }
	}
	if (match<T>("ref.creditor", p, s, w, fin, flags))
		MC_CHECK(z(p->check_digits) == t.substr(2, 2) && z(p->reference) == std::string(21 - r.size(), '0') + r && p->is_valid == valid, "ref.creditor", "%s: %s %s, %s", q(s).c_str(), z(p->check_digits).c_str(), z(p->reference).c_str(), p->is_valid ? "valid" : "not valid");
	else MC_CHECK(!p->check_digits[0] && !p->reference[0] && !p->is_valid, "ref.creditor", "%s: rejected, yet %s", q(s).c_str(), z(p->reference).c_str());
}
template <class T> static auto make_creditor(const pc::Leaf<T>& l) { return std::make_shared<stdex::parser::basic_creditor_reference<T>>(l.space()); }
MC_HARNESS(creditor_values)
{
	// any length, any check digits, digits or letters
	size_t n = mc::choose(25), pat = mc::choose(4);
	both([&](auto l, auto zz) {
		typedef decltype(zz) T; auto p = make_creditor(l); Fin fin; bool some = false;
		std::string r; for (size_t i = 0; i < n; ++i) r += pat == 0 ? '9' : pat == 1 ? "0123456789"[i * 3 % 10] : pat == 2 ? 'Z' : i % 2 ? '7' : (char)('A' + i);
		std::string sp; for (size_t i = 0; i < n; ++i) { if (i % 4 == 0) sp += ' '; sp += r[i]; }
		for (int c = 0; c < 100; ++c) {
			char cd[3] = { (char)('0' + c / 10), (char)('0' + c % 10), 0 };
			for (auto& x : { r, sp, r + " ", sp + "  A", r + "-" }) { check_creditor<T>(p, std::string("RF") + cd + x, fin); some |= p->is_valid; }
		}
		MC_CHECK(some == (n >= 1 && n <= 21), "ref.creditor", "no check digits fit %zu of kind %zu", n, pat);
		mc::state(n * 4 + pat); mc::outcome(fin.h); if (some) mc::nontrivial();
	});
}
MC_HARNESS(creditor_words)
{
	WORDS((std::vector<std::string>{ "RF", "18", "5390", "7", "AZ", " ", "\n", "rf" }), mc::thorough() ? 8 : 7, false, make_creditor(l), { for (int f : { 0, (int)stdex::parser::match_case_insensitive }) check_creditor<T>(p, s, fin, f); });
}
// --- Slovenian references
static bool ctl(const std::string& s) { unsigned n = 0, w = 2; for (size_t i = s.size() - 1; i--; ++w) n += (unsigned)(s[i] - '0') * w; unsigned c = 11 - n % 11; return (c >= 10 ? 0 : c) == (unsigned)(s.back() - '0'); }
static bool si_valid(const std::string& m, const std::vector<std::string>& p)
{
	size_t n = p.size(), sum = 0; bool small = true; for (auto& x : p) { sum += x.size(); small &= x.size() <= 12; }
	bool sz = small && (n < 2 || sum <= 20);
	auto cat = [&](size_t a, size_t b) { std::string s; for (; a <= b && a < n; ++a) s += p[a]; return s; };
	static const char* const two[] = { "11", "18", "19", "28", "38", "40", "41", "48", "49", "51", "58" };
	if (m == "99") return true;
	if (m == "00") return n && sz;
	if (m == "01") return n && sz && ctl(cat(0, 2));
	if (m == "02") return n == 3 && sz && ctl(p[1]) && ctl(p[2]);
	if (m == "03") return n == 3 && sz && ctl(p[0]) && ctl(p[1]) && ctl(p[2]);
	if (m == "04") return n == 3 && sz && ctl(p[0]) && ctl(p[2]);
	if (m == "05" || m == "55") return n && sz && ctl(p[0]);
	if (m == "06") return n >= 2 && sz && ctl(cat(1, 2));
	if (m == "07") return n >= 2 && sz && ctl(p[1]);
	if (m == "08") return n == 3 && sz && ctl(cat(0, 1)) && ctl(p[2]);
	if (m == "09") return n && sz && ctl(cat(0, 1));
	if (m == "10") return n >= 2 && sz && ctl(p[0]) && ctl(cat(1, 2));
	for (auto t : two) if (m == t) return n >= 2 && sz && ctl(p[0]) && ctl(p[1]);
	if (m == "12") return n == 1 && p[0].size() <= 13 && ctl(p[0]);
	if (m == "21" || m == "31") return n == 2 && sz && ctl(p[0]);
	return true;
}
template <class T, class P> static void check_si(P& p, const std::string& s, Fin& fin, int flags = 0)
{
	std::string t = flags ? up(s) : s; Iv w, f[3]; bool valid = false; std::vector<std::string> v;
	if (t.size() >= 4 && !t.compare(0, 2, "SI") && isdigit((unsigned char)t[2]) && isdigit((unsigned char)t[3])) {
		w = Iv(0, 4);
		if (t.compare(2, 2, "99")) { size_t e = t[4] == ' ' ? 5 : 4; for (int i = 0; i < 3; ++i) { if (i) { if (e >= t.size() || t[e] != '-') break; ++e; } Iv d = digits(t, e); if (!d) break; f[i] = d; v.push_back(t.substr(d.start, d.size())); w.end = e = d.end; } }
		valid = si_valid(t.substr(2, 2), v);
	}
	if (match<T>("ref.si", p, s, w, fin, flags))
		MC_CHECK(z(p->model) == t.substr(2, 2) && eq(p->part1.interval, f[0]) && eq(p->part2.interval, f[1]) && eq(p->part3.interval, f[2]) && p->is_valid == valid, "ref.si", "%s: %s %s %s, %s instead of %s", q(s).c_str(), sh(p->part1.interval).c_str(), sh(p->part2.interval).c_str(), sh(p->part3.interval).c_str(), p->is_valid ? "valid" : "not valid", valid ? "valid" : "not valid");
	else MC_CHECK(!p->model[0] && !p->part1.interval && !p->part2.interval && !p->part3.interval && !p->is_valid, "ref.si", "%s: rejected, yet %s", q(s).c_str(), z(p->model).c_str());
}
template <class T> static auto make_si(const pc::Leaf<T>& l) { return std::make_shared<stdex::parser::basic_si_reference<T>>(l.space()); }
MC_HARNESS(si_models)
{
	// every model with every combination of lengths, and every last digit of each part
	size_t m = mc::choose(100), a = 1 + mc::choose(14), pat = mc::choose(2);
	both([&](auto l, auto zz) {
		typedef decltype(zz) T; auto p = make_si(l); Fin fin;
		auto num = [&](size_t n, size_t salt) { std::string s; for (size_t i = 0; i < n; ++i) s += (char)('0' + (pat ? (i * 7 + salt * 3 + n) % 10 : (9 - salt))); return s; };
		char mm[8]; snprintf(mm, sizeof mm, "SI%02zu ", m);
		static const size_t few[] = { 0, 1, 3, 8, 12, 13 };
		for (size_t b : few) for (size_t c : few) {
			if (!b && c) continue;
			for (int x = 0; x < 10; ++x) for (int y = 0; y < (b ? 10 : 1); ++y) for (int k = 0; k < (c ? 10 : 1); ++k) {
				if (!mc::thorough() && c && (x + y + k) % 3 && x != y) continue;
				std::string A = num(a, 0), B = num(b, 1), C = num(c, 2); A.back() = (char)('0' + x); if (b) B.back() = (char)('0' + y); if (c) C.back() = (char)('0' + k);
				check_si<T>(p, mm + A + (b ? "-" + B : "") + (c ? "-" + C : ""), fin);
			}
		}
		mc::state((m * 14 + a) * 2 + pat); mc::outcome(fin.h); mc::nontrivial();
	});
}
MC_HARNESS(si_lengths)
{
	size_t m = mc::choose(100), a = mc::choose(15);
	both([&](auto l, auto zz) {
		typedef decltype(zz) T; auto p = make_si(l); Fin fin; char mm[8]; snprintf(mm, sizeof mm, "SI%02zu", m);
		// of zeros, which are always right
		for (size_t b = 0; b < 15; ++b) for (size_t c = 0; c < 15; ++c) check_si<T>(p, mm + std::string(a, '0') + (b ? "-" + std::string(b, '0') : "") + (c ? "-" + std::string(c, '0') : "") + "-", fin);
		mc::state(m * 15 + a); mc::outcome(fin.h); if (a) mc::nontrivial();
	});
}
MC_HARNESS(si_words)
{
	WORDS((std::vector<std::string>{ "SI", "0", "1", "99", "12", "-", " ", "si" }), mc::thorough() ? 8 : 7, false, make_si(l), { for (int f : { 0, (int)stdex::parser::match_case_insensitive }) check_si<T>(p, s, fin, f); });
}
