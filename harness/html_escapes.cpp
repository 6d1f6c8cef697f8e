// P11: escaping for HTML, URLs and CSS: what is escaped reads back as it was, has nothing special left in it, and unescaping keeps to its text
#include "pcases.h"
#include <stdex/html.hpp>
typedef std::vector<std::string> S;
namespace html = stdex::html;
static size_t L(size_t quick) { return mc::thorough() ? quick + 1 : quick; }
static std::string q(const std::string& s) { return mc::quote(s.data(), s.size()); }
static std::string q(const std::wstring& s) { std::string o = "L\""; for (wchar_t c : s) if (c >= 32 && c < 127) o += (char)c; else o += mc::str("\\x%x", (unsigned)c); return o + "\""; }
// text without anything behind it
template <class T> struct Exact { std::unique_ptr<T[]> p; size_t n; Exact(const std::basic_string<T>& s) : p(new T[s.size() ? s.size() : 1]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); } };
template <class T> static std::basic_string<T> widen(const std::string& s) { std::basic_string<T> o; for (char c : s) o += (T)(unsigned char)c; return o; }
// run over words of a list of tokens, the last two in one execution
template <class T, class A> static void words(const std::vector<std::basic_string<T>>& tok, size_t len, A go)
{
	size_t n = mc::choose(len + 1); std::basic_string<T> s; uint64_t h = 0;
	for (size_t i = 0; i + 2 < n; ++i) { s += tok[mc::choose(tok.size())]; if (i == 0) mc::job(); }
	if (n < 3) mc::job();
	if (n == 0) h = go(s); else if (n == 1) for (auto& a : tok) h += go(s + a); else for (auto& a : tok) for (auto& b : tok) h += go(s + a + b);
	mc::state(mc::hash(std::string((const char*)s.data(), s.size() * sizeof(T)), n * 8 + sizeof(T))); mc::outcome(h % 512); mc::nontrivial();
}
// call in every way there is: with the limit, with a terminator before it, from a string, and see all give the same
#define EVERY_WAY(what, F, view) \
	std::basic_string<T> o = widen<T>("pre"); { Exact<T> e(s); F(o, e.p.get(), e.n); } mc::transition(); \
	MC_CHECK(!o.compare(0, 3, widen<T>("pre")), what, "%s: what there was before is lost", q(s).c_str()); o.erase(0, 3); \
	{ std::basic_string<T> z = s; z += (T)0; z += (T)'<'; z += (T)'\\'; std::basic_string<T> a, b; F(a, z.c_str(), z.size()); F(b, z.c_str(), SIZE_MAX); MC_CHECK(a == o && b == o, what, "%s: it does not end at the terminator", q(s).c_str()); } \
	{ std::basic_string<T> a; F(a, view(s)); MC_CHECK(a == o, what, "%s: another result from a string", q(s).c_str()); }

template <class T> static void entities_t()
{
	std::vector<std::basic_string<T>> tok; for (auto& t : S{ "&", ";", "\"", "'", "<", ">", "a", "#", "x41", "amp", "lt", " ", "\n", "%", "/" }) tok.push_back(widen<T>(t));
	if (sizeof(T) > 1) { tok.push_back({ (T)0xa0 }); tok.push_back({ (T)0x10d }); } else tok.push_back(widen<T>("\xc4\x8d"));
	words<T>(tok, L(5), [&](const std::basic_string<T>& s) {
		std::basic_string<T> all, some;
		{ EVERY_WAY("html.escape", html::escape, ) all = o; }
		{ EVERY_WAY("html.escape", html::escape_min, ) some = o; }
		{ std::basic_string<T> a; for (T c : s) html::escape_min(a, c); MC_CHECK(a == some, "html.escape", "%s is escaped by characters to %s instead of %s", q(s).c_str(), q(a).c_str(), q(some).c_str()); }
		for (auto e : { &all, &some }) {
			std::wstring wide, back, was; for (T c : *e) wide += sizeof(T) > 1 ? (wchar_t)c : (wchar_t)(unsigned char)c; for (T c : s) was += sizeof(T) > 1 ? (wchar_t)c : (wchar_t)(unsigned char)c; stdex::sgml2strcat(back, wide);
			MC_CHECK(back == was, "html.escape", "%s is escaped to %s, which is %s", q(s).c_str(), q(*e).c_str(), q(back).c_str());
			for (T c : *e) {
				MC_CHECK(c != '<' && c != '>' && !(sizeof(T) > 1 && c == (T)0xa0), "html.escape", "%s is escaped to %s", q(s).c_str(), q(*e).c_str());
				if (e == &all) MC_CHECK(c != '"' && c != '\'', "html.escape", "%s is escaped to %s", q(s).c_str(), q(*e).c_str());
			}
			// every ampersand starts an entity
			for (size_t i = 0; i < e->size(); ++i) if ((*e)[i] == '&') { size_t k = i + 1; while (k < e->size() && (isalnum((int)(*e)[k] & 0x7f) || (*e)[k] == '#')) ++k; MC_CHECK(k < e->size() && (*e)[k] == ';', "html.escape", "%s is escaped to %s", q(s).c_str(), q(*e).c_str()); }
		}
		// in both, plain characters are as they were
		for (T c : s) if ((c >= 'a' && c <= 'z') || c == ' ' || c == '\n') { std::basic_string<T> a, b; html::escape(a, &c, 1); html::escape_min(b, c); MC_CHECK(a.size() == 1 && a[0] == c && a == b, "html.escape", "%d is escaped", (int)c); }
		return mc::hash(std::string((const char*)all.data(), all.size() * sizeof(T)));
	});
}
MC_HARNESS(entities) { if (mc::flip()) entities_t<wchar_t>(); else entities_t<char>(); }

typedef char T;
static std::string_view view(const std::string& s) { return s; }
static bool hexa(char c) { return isxdigit((unsigned char)c); }
static int nib(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static std::string url_decoded(const std::string& s)
{
	std::string o;
	for (size_t i = 0; i < s.size(); ++i)
		if (s[i] == '%' && i + 2 < s.size() && hexa(s[i + 1]) && hexa(s[i + 2])) { o += (char)(nib(s[i + 1]) << 4 | nib(s[i + 2])); i += 2; }
		else o += s[i] == '+' ? ' ' : s[i];
	return o;
}
MC_HARNESS(url_bytes)
{
	// all texts of up to three octets, after and before others
	unsigned a = 1 + (unsigned)mc::choose(255); mc::job_noskip(); uint64_t h = 0;
	auto check = [&](const std::string& s) {
		EVERY_WAY("html.url", html::url_escape, view)
		for (unsigned char c : o) MC_CHECK(c > 32 && c < 127 && !strchr("<>#{}|\\^~[]`;+/?:@=&$", c), "html.url", "%s is escaped to %s", q(s).c_str(), q(o).c_str());
		for (size_t i = 0; i < o.size(); ++i) if (o[i] == '%') MC_CHECK(i + 2 < o.size() && hexa(o[i + 1]) && hexa(o[i + 2]), "html.url", "%s is escaped to %s", q(s).c_str(), q(o).c_str());
		MC_CHECK(url_decoded(o) == s, "html.url", "%s is escaped to %s", q(s).c_str(), q(o).c_str());
		std::string back; html::url_unescape(back, o); MC_CHECK(back == s, "html.url", "%s is escaped to %s, which is %s", q(s).c_str(), q(o).c_str(), q(back).c_str());
		if (s.size() == 1 && isalnum((unsigned char)s[0])) MC_CHECK(o == s, "html.url", "%s is escaped to %s", q(s).c_str(), q(o).c_str());
		h += o.size();
	};
	const std::string x(1, (char)a); check(x);
	for (unsigned b = 1; b < 256; ++b) { const std::string y = x + (char)b; check(y); if (mc::thorough() || b % 16 == 1) for (unsigned c = 1; c < 256; c += mc::thorough() ? 1 : 7) check(y + (char)c); }
	mc::state(a); mc::outcome(h % 512); mc::nontrivial();
}
MC_HARNESS(url_unescape)
{
	const S tok{ "%", "+", "0", "4", "9", "a", "f", "A", "F", "g", "G", "/", "@", "\x80", " " };
	words<char>(tok, L(6), [&](const std::string& s) {
		EVERY_WAY("html.url", html::url_unescape, view)
		MC_CHECK(o == url_decoded(s), "html.url", "%s is unescaped to %s instead of %s", q(s).c_str(), q(o).c_str(), q(url_decoded(s)).c_str());
		return mc::hash(o);
	});
}
MC_HARNESS(url_pairs)
{
	// all pairs of octets after a percent sign
	unsigned a = 1 + (unsigned)mc::choose(255); mc::job_noskip(); uint64_t h = 0;
	for (unsigned b = 0; b < 256; ++b) for (auto& tail : S{ "", "x", "%" }) {
		std::string s = std::string("%") + (char)a; if (b) s += (char)b + tail; else if (!tail.empty()) continue;
		EVERY_WAY("html.url", html::url_unescape, view)
		MC_CHECK(o == url_decoded(s), "html.url", "%s is unescaped to %s instead of %s", q(s).c_str(), q(o).c_str(), q(url_decoded(s)).c_str()); h += o.size();
	}
	mc::state(a); mc::outcome(h % 512); mc::nontrivial();
}
// reference for CSS; false when a character does not fit
template <class T> static bool css_decoded(const std::basic_string<T>& s, std::basic_string<T>& o)
{
	for (size_t i = 0; i < s.size();) {
		if (s[i] != '\\' || i + 1 == s.size()) { o += s[i++]; continue; }
		T c = s[++i]; size_t n = 0; uint32_t v = 0;
		while (n < 6 && i + n < s.size() && (typename std::make_unsigned<T>::type)s[i + n] < 128 && isxdigit((int)s[i + n])) v = v << 4 | (uint32_t)nib((char)s[i + n++]);
		if (n) { if (sizeof(T) == 1 && v > 0x7f) return false; o += (T)v; i += n; if (i < s.size() && s[i] == ' ') ++i; continue; }
		++i;
		if (c == 'n') o += (T)'\n'; else if (c == 'r') o += (T)'\r'; else if (c == 't') o += (T)'\t'; else if (c != '\n') o += c;
	}
	return true;
}
template <class T> static void css_t()
{
	std::vector<std::basic_string<T>> tok; for (auto& t : S{ "\\", "n", "r", "t", "0", "4", "a", "F", "g", " ", "\n", "\"", "'", "(", ")", "\t", "\r", "000041", "z" }) tok.push_back(widen<T>(t));
	words<T>(tok, L(5), [&](const std::basic_string<T>& s) {
		{
			EVERY_WAY("html.css", html::css_escape, ) std::basic_string<T> back; html::css_unescape(back, o);
			MC_CHECK(back == s, "html.css", "%s is escaped to %s, which is %s", q(s).c_str(), q(o).c_str(), q(back).c_str());
			for (size_t i = 0; i < o.size(); ++i) { if (o[i] == '\\') { ++i; continue; } MC_CHECK(!strchr("\"'()\n\r\t", (char)o[i]), "html.css", "%s is escaped to %s", q(s).c_str(), q(o).c_str()); }
		}
		std::basic_string<T> want; if (!css_decoded<T>(s, want)) return (uint64_t)0;
		EVERY_WAY("html.css", html::css_unescape, )
		MC_CHECK(o == want, "html.css", "%s is unescaped to %s instead of %s", q(s).c_str(), q(o).c_str(), q(want).c_str());
		return mc::hash(std::string((const char*)o.data(), o.size() * sizeof(T)));
	});
}
MC_HARNESS(css) { if (mc::flip()) css_t<wchar_t>(); else css_t<char>(); }
MC_HARNESS(css_aliases)
{
	// characters whose codes only end like those of others mean nothing
	typedef wchar_t T; static const char* const texts[] = { "\\41 b", "\\", "a", "\\00004", "\\a\\", "\\n", "(" };
	std::string t = mc::pick(texts); size_t at = mc::choose(t.size() + 1); mc::job_noskip(); uint64_t h = 0;
	for (unsigned hi : { 0x80u, 0x100u, 0x3000u, 0xff00u, 0x10000u, 0x80000000u }) for (unsigned c = 0; c < 0x80; ++c) {
		std::wstring s = widen<T>(t), want; s.insert(at, 1, (T)(hi + c)); css_decoded<T>(s, want);
		{ EVERY_WAY("html.css", html::css_unescape, ) MC_CHECK(o == want, "html.css", "%s with %x at %zu is unescaped to %s instead of %s", t.c_str(), hi + c, at, q(o).c_str(), q(want).c_str()); h += o.size(); }
		EVERY_WAY("html.css", html::css_escape, ) std::wstring back; html::css_unescape(back, o);
		MC_CHECK(back == s && o.find((T)(hi + c)) != std::wstring::npos && (o.find((T)(hi + c)) == 0 || o[o.find((T)(hi + c)) - 1] != '\\' || (at && t[at - 1] == '\\')), "html.css", "%s with %x at %zu is escaped to %s", t.c_str(), hi + c, at, q(o).c_str());
	}
	mc::state(mc::hash(t, at)); mc::outcome(h % 512); mc::nontrivial();
}
MC_HARNESS(css_hexadecimal)
{
	// escapes of one to eight digits, of all characters
	static const char* digits = "0123456789abcdefABCDEF"; size_t n = 1 + mc::choose(8); char f = digits[mc::choose(22)]; mc::job_noskip(); uint64_t h = 0;
	for (const char* d = digits; *d; ++d) for (const char* e = digits; *e; ++e) for (auto& tail : S{ "", " ", "  ", "g", " 1", "\\" }) {
		std::string t = "\\"; for (size_t i = 0; i < n; ++i) t += i == 0 ? f : i == n - 1 ? *d : i == 1 ? *e : '0'; t += tail;
		auto s = widen<wchar_t>(t); std::wstring want; css_decoded<wchar_t>(s, want); typedef wchar_t T;
		EVERY_WAY("html.css", html::css_unescape, )
		MC_CHECK(o == want, "html.css", "%s is unescaped to %s instead of %s", q(s).c_str(), q(o).c_str(), q(want).c_str()); h += o.size() * 7 + (o.empty() ? 0 : (uint64_t)o[0]);
	}
	mc::state(n * 256 + (unsigned char)f); mc::outcome(h % 512); mc::nontrivial();
}
