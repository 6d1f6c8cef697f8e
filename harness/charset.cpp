// Charset conversion against independent codecs: every code point, every division, every short byte sequence.
#include "common.h"
#include "cp125x.h"
#include <stdex/unicode.hpp>
#include <locale.h>
#include <system_error>
using stdex::charset_id; using stdex::charset_encoder;
typedef std::u32string U;

static bool scalar(uint32_t c) { return c < 0xD800 || (c >= 0xE000 && c < 0x110000); }
static void enc8(std::string& o, uint32_t c)
{
	if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
	else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
static void enc16(std::u16string& o, uint32_t c) { if (c < 0x10000) o += (char16_t)c; else { o += (char16_t)(0xD800 + ((c - 0x10000) >> 10)); o += (char16_t)(0xDC00 + ((c - 0x10000) & 0x3FF)); } }
static bool dec8(const std::string& s, U& o)
{
	for (size_t i = 0; i < s.size();) {
		uint8_t a = (uint8_t)s[i]; size_t n = a < 0x80 ? 1 : a >= 0xC2 && a < 0xE0 ? 2 : a >= 0xE0 && a < 0xF0 ? 3 : a >= 0xF0 && a < 0xF5 ? 4 : 0;
		if (!n || i + n > s.size()) return false;
		uint32_t c = n == 1 ? a : a & (0x7F >> n);
		for (size_t k = 1; k < n; k++) { uint8_t b = (uint8_t)s[i + k]; if ((b & 0xC0) != 0x80) return false; c = c << 6 | (b & 63); }
		if ((n == 3 && c < 0x800) || (n == 4 && c < 0x10000) || !scalar(c)) return false;
		o += (char32_t)c; i += n;
	}
	return true;
}
static bool dec16(const std::u16string& s, U& o)
{
	for (size_t i = 0; i < s.size(); i++) {
		uint32_t c = s[i];
		if (c >= 0xDC00 && c < 0xE000) return false;
		if (c >= 0xD800 && c < 0xDC00) { if (i + 1 >= s.size() || s[i + 1] < 0xDC00 || s[i + 1] >= 0xE000) return false; c = 0x10000 + ((c - 0xD800) << 10) + (s[++i] - 0xDC00); }
		o += (char32_t)c;
	}
	return true;
}
template <class T> static std::string sh(const std::basic_string<T>& s) { return mc::hex(s.data(), s.size() * sizeof(T)); }

// One session object converts many strings, also after one that failed.
template <class F, class T> struct conv {
	charset_encoder<F, T> e; conv(charset_id f, charset_id t) : e(f, t) {}
	bool operator()(const std::basic_string<F>& s, std::basic_string<T>& out)
	{
		std::vector<F> exact(s.begin(), s.end()); // reading past the end is seen
		std::basic_string<T> o(3, (T)'>');
		try { e.strcat(o, exact.data(), exact.size()); }
		catch (const std::system_error&) { MC_CHECK(o.compare(0, 3, std::basic_string<T>(3, (T)'>')) == 0, "charset.append", "a failed conversion changes what was there before"); return false; }
		MC_CHECK(o.compare(0, 3, std::basic_string<T>(3, (T)'>')) == 0, "charset.append", "conversion changes what was there before");
		out = o.substr(3); return true;
	}
};
template <class F, class T> static void good(conv<F, T>& c, const std::basic_string<F>& s, const std::basic_string<T>& r, const char* key)
{
	std::basic_string<T> o; bool ok = c(s, o);
	MC_CHECK(ok && o == r, key, "%s converts %s%s, expected %s", sh(s).c_str(), ok ? "to " : "with an error", ok ? sh(o).c_str() : "", sh(r).c_str());
}
template <class F, class T> static void bad(conv<F, T>& c, const std::basic_string<F>& s, const char* key)
{
	std::basic_string<T> o; bool ok = c(s, o);
	MC_CHECK(!ok, key, "%s is not valid and converts to %s", sh(s).c_str(), sh(o).c_str());
}

// Every code point, alone and between others.
MC_HARNESS(every_code_point)
{
	size_t block = mc::choose(0x110000 / 0x400);
	mc::job();
	conv<char, wchar_t> a(charset_id::utf8, charset_id::utf32); conv<wchar_t, char> b(charset_id::utf32, charset_id::utf8);
	conv<char16_t, wchar_t> c(charset_id::utf16, charset_id::utf32); conv<wchar_t, char16_t> d(charset_id::utf32, charset_id::utf16);
	conv<char, char16_t> e(charset_id::utf8, charset_id::utf16); conv<char16_t, char> f(charset_id::utf16, charset_id::utf8);
	conv<wchar_t, char> g(charset_id::utf32, charset_id::utf7);
	for (uint32_t x = (uint32_t)block * 0x400, end = x + 0x400; x < end; x++) {
		if (!x) continue;
		for (int ctx = 0; ctx < 2; ctx++) {
			std::wstring w; std::string s; std::u16string u;
			if (ctx) w += L'\x10FFFF', enc8(s, 0x10FFFF), enc16(u, 0x10FFFF);
			w += (wchar_t)x;
			if (!scalar(x)) { bad(b, w, "charset.surrogate"); bad(d, w, "charset.surrogate"); continue; }
			enc8(s, x); enc16(u, x);
			if (ctx) w += L'\x152', enc8(s, 0x152), enc16(u, 0x152);
			good(a, s, w, "charset.8to32"); good(b, w, s, "charset.32to8"); good(c, u, w, "charset.16to32"); good(d, w, u, "charset.32to16"); good(e, s, u, "charset.8to16"); good(f, u, s, "charset.16to8");
		}
		if (scalar(x)) {
			std::wstring w{ L'a', (wchar_t)x, L'-' }, back; std::string s;
			bool ok = g(w, s);
			conv<char, wchar_t> h(charset_id::utf7, charset_id::utf32);
			MC_CHECK(ok && h(s, back) && back == w, "charset.utf7", "%x goes through UTF-7 as %s and comes back as %s", x, show(s).c_str(), sh(back).c_str());
			for (char ch : s) MC_CHECK((uint8_t)ch < 0x80, "charset.utf7", "UTF-7 of %x is not ASCII", x);
		}
	}
	mc::transition(0x400 * 13); mc::state(block); mc::outcome(block); mc::nontrivial();
}

// Windows code pages: every byte both ways, every BMP character that is not in them is refused.
MC_HARNESS(code_pages)
{
	static const charset_id ids[] = { charset_id::windows1250, charset_id::windows1251, charset_id::windows1252 };
	size_t p = mc::choose(3), q = mc::choose(3), block = mc::choose(64);
	mc::job();
	conv<char, wchar_t> to(ids[p], charset_id::utf32); conv<wchar_t, char> from(charset_id::utf32, ids[p]); conv<char, char> between(ids[p], ids[q]); conv<char, char> to8(ids[p], charset_id::utf8);
	auto find = [&](size_t cp, uint32_t c) -> int { if (c < 0x80) return (int)c; for (int i = 0; i < 128; i++) if (cp125x[cp][i] == c) return 128 + i; return -1; };
	for (unsigned b = block * 4; b < block * 4 + 4; b++) {
		if (!b) continue;
		uint32_t c = b < 128 ? b : cp125x[p][b - 128]; std::string s{ 'x', (char)b, 'y' };
		if (!c) { bad(to, s, "charset.cp.undefined"); continue; }
		std::wstring w{ L'x', (wchar_t)c, L'y' }; good(to, s, w, "charset.cp.to"); good(from, w, s, "charset.cp.from");
		std::string u = "x"; enc8(u, c); u += 'y'; good(to8, s, u, "charset.cp.to8");
		int t = find(q, c); std::string r{ 'x', (char)t, 'y' };
		if (t < 0) bad(between, s, "charset.cp.between"); else good(between, s, r, "charset.cp.between");
	}
	if (!q) for (uint32_t c = block * 0x400; c < block * 0x400 + 0x400; c++) {
		if (!c) continue;
		std::wstring w(1, (wchar_t)c); int t = find(p, c); std::string r(1, (char)t);
		if (t < 0) bad(from, w, "charset.cp.foreign"); else good(from, w, r, "charset.cp.from");
	}
	mc::transition(0x400); mc::state(mc::hmix(p, block)); mc::outcome(mc::hmix(p * 3 + q, block)); mc::nontrivial();
}

// Every short sequence of critical UTF-8 bytes and of UTF-16 units.
MC_HARNESS(byte_sequences)
{
	static const unsigned char al[] = { 'a', 0x7F, 0x80, 0x9F, 0xA0, 0xBF, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF };
	size_t n = mc::choose(mc::thorough() ? 6 : 5); std::string s;
	for (size_t i = 0; i < n; i++) { s += (char)mc::pick(al); if (i == 1) mc::job(); }
	if (n < 2) mc::job();
	U r; bool ok = dec8(s, r); std::wstring w(r.begin(), r.end()), more = L"\x17E!"; std::u16string u; for (auto c : r) enc16(u, c);
	static conv<char, wchar_t> a(charset_id::utf8, charset_id::utf32); static conv<char, char16_t> b(charset_id::utf8, charset_id::utf16);
	if (ok) { good(a, s, w, "charset.8to32"); good(b, s, u, "charset.8to16"); } else { bad(a, s, "charset.invalid8"); bad(b, s, "charset.invalid8"); }
	std::string m; enc8(m, 0x17E); m += '!'; good(a, m, more, "charset.after"); // the session goes on
	mc::transition(3); mc::state(mc::hash(s)); mc::outcome(mc::hash(s)); if (!ok) mc::nontrivial();
}
MC_HARNESS(unit_sequences)
{
	static const char16_t al[] = { 'a', 0x17E, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFEFF };
	size_t n = mc::choose(mc::thorough() ? 7 : 6); std::u16string s;
	for (size_t i = 0; i < n; i++) { s += mc::pick(al); if (i == 1) mc::job(); }
	if (n < 2) mc::job();
	U r; bool ok = dec16(s, r); std::wstring w(r.begin(), r.end()); std::string u; for (auto c : r) enc8(u, c);
	static conv<char16_t, wchar_t> a(charset_id::utf16, charset_id::utf32); static conv<char16_t, char> b(charset_id::utf16, charset_id::utf8);
	if (ok) { good(a, s, w, "charset.16to32"); good(b, s, u, "charset.16to8"); } else { bad(a, s, "charset.invalid16"); bad(b, s, "charset.invalid16"); }
	good(a, std::u16string{ 'b', 0xD83D, 0xDE00 }, std::wstring{ L'b', 0x1F600 }, "charset.after");
	mc::transition(3); mc::state(mc::hash(s.data(), s.size() * 2)); mc::outcome(mc::hash(s.data(), s.size() * 2)); if (!ok) mc::nontrivial();
}

// Long strings: every length around the size of the internal buffer x every place of wider characters; every division.
template <class F, class T> static void lengths_of(charset_id f, charset_id t, const std::vector<std::basic_string<F>>& cf, const std::vector<std::basic_string<T>>& ct)
{
	size_t buf = 1024 / sizeof(T), mode = mc::choose(3);
	size_t n = mode == 0 ? mc::choose(24) : mode == 1 ? buf / 2 - 12 + mc::choose(24) : buf - 12 + mc::choose(24);
	size_t filler = mc::choose(cf.size()), odd = mc::choose(cf.size());
	mc::job();
	conv<F, T> c(f, t);
	size_t step = n > 40 && !mc::thorough() ? 5 : 1;
	for (size_t at = 0; at <= n; at += at < 20 || at + 20 > n ? 1 : step) {
		std::basic_string<F> s, r2; std::basic_string<T> r; size_t cut = 0;
		for (size_t i = 0; i < n; i++) { size_t k = i == at ? odd : filler; if (i == at) cut = s.size(); s += cf[k]; r += ct[k]; }
		good(c, s, r, "charset.long");
		// In two pieces, appended.
		std::basic_string<T> o; c.e.strcat(o, s.data(), cut); c.e.strcat(o, s.data() + cut, s.size() - cut);
		MC_CHECK(o == r, "charset.pieces", "a string of %zu converts differently in pieces of %zu and %zu", s.size(), cut, s.size() - cut);
		// Every way to pass it.
		if (at == 0) {
			c.e.strcpy(o, s.c_str()); MC_CHECK(o == r, "charset.overloads", "strcpy of a terminated string differs");
			c.e.strcpy(o, std::basic_string_view<F>(s)); MC_CHECK(o == r, "charset.overloads", "strcpy of a view differs");
			MC_CHECK(c.e.convert(s.c_str()) == r && c.e.convert(s) == r && c.e.convert(s.data(), s.size()) == r, "charset.overloads", "convert differs");
			std::basic_string<F> z = s; z += (F)0; z += cf[odd]; MC_CHECK(c.e.convert(z.data(), z.size()) == r, "charset.zero", "conversion goes past the terminator");
		}
	}
	mc::transition(n * 2); mc::state(mc::hmix(n, filler)); mc::outcome(mc::hmix(mc::hmix(n, filler), odd)); if (n > 24) mc::nontrivial();
}
static const std::vector<std::string> c8 = { "k", "\xC5\xBE", "\xE2\x82\xAC", "\xF0\x9F\x98\x80" };
static const std::vector<std::wstring> c32 = { L"k", L"\x17E", L"\x20AC", L"\x1F600" };
static const std::vector<std::u16string> c16 = { u"k", u"\x17E", u"\x20AC", u"\xD83D\xDE00" };
static const std::vector<std::string> c7 = { "k", "+AX4-", "+IKw-", "+2D3eAA-" };
static const std::vector<std::string> c1250 = { "k", "\x9E", "\x80", "\xE8" };
static const std::vector<std::string> c1250as8 = { "k", "\xC5\xBE", "\xE2\x82\xAC", "\xC4\x8D" };
// Very long strings: around 2^15, 2^16 and 2^17 units, one odd character at critical places.
template <class F, class T> static void very_long(charset_id f, charset_id t, const std::vector<std::basic_string<F>>& cf, const std::vector<std::basic_string<T>>& ct)
{
	static const size_t sizes[] = { 0x10000, 0x20000, 0x8000, 0x30d41, 0x4000, 0x100000 };
	size_t base = sizes[mc::choose(mc::thorough() ? 6 : 2)], filler = mc::choose(cf.size()), odd = mc::choose(cf.size()), which = mc::choose(mc::thorough() ? 2 : 1), off = mc::choose(3);
	mc::job();
	conv<F, T> c(f, t);
	size_t unit = which ? ct[filler].size() : cf[filler].size(), n = base / unit + off;
	for (size_t at : { n / 2, n - 1, (size_t)0, n - 2 }) {
		if (!mc::thorough() && at != n / 2 && at != n - 1) break;
		std::basic_string<F> s; std::basic_string<T> r; s.reserve(n * 5); r.reserve(n * 5); size_t cut = 0;
		for (size_t i = 0; i < n; i++) { size_t k = i == at ? odd : filler; if (i == at) cut = s.size(); s += cf[k]; r += ct[k]; }
		std::basic_string<T> o; bool ok = c(s, o); size_t d = 0; while (d < o.size() && d < r.size() && o[d] == r[d]) d++;
		MC_CHECK(ok && o == r, "charset.long", "a string of %zu units converts %s, %zu of %zu units, the first different is %zu", s.size(), ok ? "well" : "with an error", o.size(), r.size(), d);
		o.clear(); c.e.strcat(o, s.data(), cut); c.e.strcat(o, s.data() + cut, s.size() - cut); MC_CHECK(o == r, "charset.pieces", "a string of %zu converts differently in pieces of %zu and %zu", s.size(), cut, s.size() - cut);
		MC_CHECK(c.e.convert(s.c_str()) == r && c.e.convert(s) == r, "charset.overloads", "convert differs");
	}
	mc::transition(n * 4); mc::state(mc::hmix(n, filler)); mc::outcome(mc::hmix(mc::hmix(n, filler), odd)); mc::nontrivial();
}
MC_HARNESS(long_8to32) { lengths_of<char, wchar_t>(charset_id::utf8, charset_id::utf32, c8, c32); }
MC_HARNESS(long_32to8) { lengths_of<wchar_t, char>(charset_id::utf32, charset_id::utf8, c32, c8); }
MC_HARNESS(long_16to8) { lengths_of<char16_t, char>(charset_id::utf16, charset_id::utf8, c16, c8); }
MC_HARNESS(long_8to16) { lengths_of<char, char16_t>(charset_id::utf8, charset_id::utf16, c8, c16); }
MC_HARNESS(long_7to32) { lengths_of<char, wchar_t>(charset_id::utf7, charset_id::utf32, c7, c32); }
MC_HARNESS(long_1250to8) { lengths_of<char, char>(charset_id::windows1250, charset_id::utf8, c1250, c1250as8); }

MC_HARNESS(very_long_strings)
{
	switch (mc::choose(6)) {
	case 0: very_long<char, wchar_t>(charset_id::utf8, charset_id::utf32, c8, c32); break;
	case 1: very_long<wchar_t, char>(charset_id::utf32, charset_id::utf8, c32, c8); break;
	case 2: very_long<char16_t, char>(charset_id::utf16, charset_id::utf8, c16, c8); break;
	case 3: very_long<char, char16_t>(charset_id::utf8, charset_id::utf16, c8, c16); break;
	case 4: very_long<char, wchar_t>(charset_id::utf7, charset_id::utf32, c7, c32); break;
	case 5: very_long<char, char>(charset_id::windows1250, charset_id::utf8, c1250, c1250as8); break;
	}
}

// UTF-7 has a shift state: every conversion stands for itself, also after one that failed or ended in the middle.
MC_HARNESS(utf7_strings)
{
	static const wchar_t al[] = { L'a', L'+', L'-', 0x17E, 0x1F600, L'/', 0xD800 };
	size_t n = mc::choose(mc::thorough() ? 7 : 6); std::wstring w;
	for (size_t i = 0; i < n; i++) w += mc::pick(al);
	mc::job();
	static charset_encoder<wchar_t, char> e(charset_id::utf32, charset_id::utf7); static charset_encoder<char, wchar_t> d(charset_id::utf7, charset_id::utf32);
	size_t open = mc::choose(3);
	try { if (open == 1) { d.convert("+AX4"); d.convert("+AX4\xFF"); } } catch (const std::system_error&) {}
	try { if (open == 2) { e.convert(L"\x17E"); e.convert(L"\x17E\xDC00"); } } catch (const std::system_error&) {}
	bool valid = w.find((wchar_t)0xD800) == std::wstring::npos, ok = true; std::string o, p; std::wstring back;
	try { o = e.convert(w); for (size_t i = 0; i < n; i++) e.strcat(p, w.data() + i, 1); } catch (const std::system_error&) { ok = false; }
	MC_CHECK(ok == valid, "charset.utf7", "%s converts %s", sh(w).c_str(), ok ? "well" : "with an error");
	if (ok) {
		MC_CHECK(d.convert(o) == w, "charset.utf7.back", "%s is encoded as %s and comes back as %s", sh(w).c_str(), show(o).c_str(), sh(d.convert(o)).c_str());
		MC_CHECK(d.convert(p) == w, "charset.utf7.pieces", "%s is encoded piece by piece as %s and comes back as %s", sh(w).c_str(), show(p).c_str(), sh(d.convert(p)).c_str());
		MC_CHECK(d.convert(o + "<" + p + ">") == w + L"<" + w + L">", "charset.utf7.joined", "%s between others comes back different", show(o).c_str());
	}
	mc::transition(n + 2); mc::state(mc::hash(o)); mc::outcome(mc::hash(o)); if (n > 1) mc::nontrivial();
}

// Names and the convenience functions.
MC_HARNESS(charset_names)
{
	static const struct { const char* n; charset_id id; } names[] = { { "UTF-7", charset_id::utf7 }, { "UNICODE-1-1-UTF-7", charset_id::utf7 }, { "CSUNICODE11UTF7", charset_id::utf7 }, { "UTF-8", charset_id::utf8 }, { "UTF8", charset_id::utf8 }, { "UTF-16", charset_id::utf16 }, { "UTF-16LE", charset_id::utf16 }, { "UTF-32", charset_id::utf32 }, { "UTF-32LE", charset_id::utf32 }, { "CP1250", charset_id::windows1250 }, { "MS-EE", charset_id::windows1250 }, { "WINDOWS-1250", charset_id::windows1250 }, { "CP1251", charset_id::windows1251 }, { "MS-CYRL", charset_id::windows1251 }, { "WINDOWS-1251", charset_id::windows1251 }, { "CP1252", charset_id::windows1252 }, { "MS-ANSI", charset_id::windows1252 }, { "WINDOWS-1252", charset_id::windows1252 } };
	const auto& x = mc::pick(names); std::string n = x.n;
	mc::job();
	std::vector<size_t> letters; for (size_t i = 0; i < n.size(); i++) if (n[i] >= 'A' && n[i] <= 'Z') letters.push_back(i);
	for (size_t m = 0; m < (size_t)1 << letters.size(); m++) {
		std::string s = n; for (size_t i = 0; i < letters.size(); i++) if (m >> i & 1) s[letters[i]] |= 0x20;
		MC_CHECK(stdex::charset_from_name(s.c_str()) == x.id && stdex::charset_from_name(s) == x.id, "charset.name", "%s is taken for another charset", s.c_str());
	}
	auto known = [&](const std::string& s) { std::string u = s; for (auto& c : u) if (c >= 'a' && c <= 'z') c ^= 0x20; for (auto& y : names) if (u == y.n) return y.id; return charset_id::system; };
	for (size_t i = 0; i <= n.size(); i++) for (char c : { '-', '0', 'X', '\0', '_', '8', (char)0xC8 }) {
		std::string s = n.substr(0, i); if (c) s += c; if (i < n.size()) s += n.substr(i + (c == 'X'));
		s = s.c_str(); MC_CHECK(stdex::charset_from_name(s) == known(s), "charset.name", "%s is mistaken", s.c_str());
		s = n.substr(0, i); MC_CHECK(stdex::charset_from_name(s) == known(s), "charset.name", "%s is mistaken", s.c_str());
	}
	mc::transition((size_t)1 << letters.size()); mc::state(mc::hash(n)); mc::outcome(mc::hash(n)); mc::nontrivial();
}
MC_HARNESS(conversion_functions)
{
	size_t p = mc::choose(8), len = mc::choose(3);
	mc::job();
	setlocale(LC_ALL, "C.UTF-8");
	charset_id cs = p == 0 ? charset_id::system : p == 1 ? charset_id::utf8 : p == 2 ? charset_id::windows1250 : charset_id::utf8;
	static const size_t lens[] = { 0, 2, 700 }; std::string s; std::wstring w;
	for (size_t i = 0; i < lens[len]; i++) { s += cs == charset_id::windows1250 ? c1250[i % 4] : c1250as8[i % 4]; w += i % 4 == 0 ? L'k' : i % 4 == 1 ? L'\x17E' : i % 4 == 2 ? L'\x20AC' : L'\x10D'; }
	std::wstring a = L"<"; stdex::strcat(a, s.data(), s.size(), cs); std::wstring b = L"<"; stdex::strcat(b, std::string_view(s), cs);
	std::wstring c = L"<"; stdex::strcpy(c, s.data(), s.size(), cs); std::wstring d = L"<"; stdex::strcpy(d, std::string_view(s), cs);
	std::wstring a2 = L"<", b2 = L"<"; stdex::str2wstr(a2, s.data(), s.size(), cs); stdex::str2wstr(b2, std::string_view(s), cs);
	MC_CHECK(a == L"<" + w && b == a && c == w && d == w && a2 == a && b2 == a && stdex::str2wstr(s.c_str(), cs) == w && stdex::str2wstr(s.data(), s.size(), cs) == w && stdex::str2wstr(std::string_view(s), cs) == w, "charset.functions", "functions to wide strings differ for %zu characters", lens[len]);
	std::string e = "<"; stdex::strcat(e, w.data(), w.size(), cs); std::string f = "<"; stdex::strcat(f, std::wstring_view(w), cs);
	std::string g = "<"; stdex::strcpy(g, w.data(), w.size(), cs); std::string h = "<"; stdex::strcpy(h, std::wstring_view(w), cs);
	std::string e2 = "<", f2 = "<"; stdex::wstr2str(e2, w.data(), w.size(), cs); stdex::wstr2str(f2, std::wstring_view(w), cs);
	MC_CHECK(e == "<" + s && f == e && g == s && h == s && e2 == e && f2 == e && stdex::wstr2str(w.c_str(), cs) == s && stdex::wstr2str(w.data(), w.size(), cs) == s && stdex::wstr2str(std::wstring_view(w), cs) == s, "charset.functions", "functions from wide strings differ for %zu characters", lens[len]);
	typedef charset_encoder<char, char> cc; MC_CHECK(cc::system_charset() == charset_id::utf8, "charset.system", "the system charset is not recognised");
	if (s.size() > 3) { std::wstring z = L"<"; stdex::strcat(z, s.data(), 1, cs); MC_CHECK(z == L"<k", "charset.functions", "the limit is not respected"); }
	mc::transition(18); mc::state(mc::hmix(p, len)); mc::outcome(mc::hmix(p, len)); mc::nontrivial();
}
