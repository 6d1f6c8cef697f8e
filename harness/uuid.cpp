// U05: identifiers and their text.
#include "mc.h"
#include <stdex/compat.hpp>
#include <stdex/uuid.hpp>
#include <string>
#include <string.h>
#include <vector>

struct id16 { uuid_t b; };
static std::string ref(const id16& u) { uint32_t a; uint16_t b, c; memcpy(&a, u.b, 4); memcpy(&b, u.b + 4, 2); memcpy(&c, u.b + 6, 2); std::string s = mc::str("{%08X-%04X-%04X-", a, b, c); for (int i = 8; i < 16; i++) { s += mc::str("%02X", u.b[i]); if (i == 9) s += '-'; } return s + "}"; }
template <class T> struct exact { T* p; size_t n; exact(const std::string& s, bool z) : n(s.size()) { p = new T[n + z]; for (size_t i = 0; i < n; i++) p[i] = (T)(unsigned char)s[i]; if (z) p[n] = 0; } ~exact() { delete[] p; } };
// 1: must be accepted as u; 0: must be refused; -1: not claimed (a sign, a prefix or no digits at all in a group)
static int grammar(const std::string& full, id16& u)
{
	std::string s = full.c_str(); size_t i = 0; auto ws = [&] { while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++; };
	static const uint64_t top[] = { 0xffffffff, 0xffff, 0xffff, 0xffff, 0xffffffffffff }; uint64_t v[5]; bool loose = false;
	ws(); if (i >= s.size() || s[i++] != '{') return 0;
	for (int g = 0; g < 5; g++) {
		ws(); if (i < s.size() && (s[i] == '+' || s[i] == '-')) { loose = true; i++; }
		if (i + 1 < s.size() && s[i] == '0' && (s[i + 1] | 32) == 'x') { loose = true; i += 2; }
		size_t from = i; v[g] = 0; bool over = false;
		while (i < s.size() && isxdigit((unsigned char)s[i])) { int d = s[i] <= '9' ? s[i] - '0' : (s[i] | 32) - 'a' + 10; if (v[g] >> 60) over = true; v[g] = v[g] * 16 + d; i++; }
		if (i == from) loose = true;
		if (loose) return -1;
		if (over || v[g] > top[g]) return 0;
		ws(); if (i >= s.size() || s[i++] != (g < 4 ? '-' : '}')) return 0;
	}
	ws(); if (i < s.size()) return 0;
	uint32_t a = (uint32_t)v[0]; uint16_t b = (uint16_t)v[1], c = (uint16_t)v[2]; memcpy(u.b, &a, 4); memcpy(u.b + 4, &b, 2); memcpy(u.b + 6, &c, 2); u.b[8] = (uint8_t)(v[3] >> 8); u.b[9] = (uint8_t)v[3]; for (int k = 0; k < 6; k++) u.b[10 + k] = (uint8_t)(v[4] >> (40 - 8 * k));
	return 1;
}
template <class T> static void parse(const std::string& s)
{
	id16 want; int g = grammar(s, want);
	for (int form = 0; form < 3; form++) {
		exact<T> e(s, form == 1); id16 got; memset(&got, 0xee, sizeof got);
		bool ok = stdex::strtouuid(e.p, form == 1 ? SIZE_MAX : form == 2 ? s.size() : e.n, got.b);
		if (g >= 0) MC_CHECK(ok == (g == 1) && (!ok || !memcmp(&got, &want, 16)), "uuid.parse", "%s is %s as %s", mc::quote(s.data(), s.size()).c_str(), ok ? "accepted" : "refused", mc::hex(&got, 16).c_str());
	}
	mc::transition(3);
}
static void format(const id16& u)
{
	std::string w = ref(u); struct { char a[stdex::uuid_str_max]; char guard[9]; } n; struct { wchar_t a[stdex::uuid_str_max]; wchar_t guard[9]; } x;
	memset(&n, 'g', sizeof n); wmemset(x.a, L'g', stdex::uuid_str_max + 9 - 9); for (auto& c : x.guard) c = L'g';
	stdex::uuidtostr(n.a, u.b); stdex::uuidtostr(x.a, u.b);
	MC_CHECK(!memcmp(n.a, w.c_str(), w.size() + 1) && std::string(n.guard, 9) == "ggggggggg", "uuid.format", "%s is %s", w.c_str(), mc::quote(n.a, stdex::uuid_str_max).c_str());
	MC_CHECK(std::wstring(x.a, w.size() + 1) == std::wstring(w.begin(), w.end()) + L'\0' && std::wstring(x.guard, 9) == L"ggggggggg", "uuid.format", "wide %s is %ls", w.c_str(), x.a);
	id16 b; MC_CHECK(stdex::strtouuid(n.a, SIZE_MAX, b.b) && !memcmp(&b, &u, 16) && stdex::strtouuid(x.a, w.size(), b.b) && !memcmp(&b, &u, 16), "uuid.roundtrip", "%s does not give itself back", w.c_str());
	for (auto& c : w) c = (char)tolower(c); parse<char>(w); mc::transition(3);
}
// Every pair of bytes at every pair of places.
MC_HARNESS(every_byte)
{
	size_t i = mc::choose(16), j = mc::choose(16); int back = (int)mc::choose(3);
	mc::job();
	id16 u; for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b += mc::thorough() || a < 2 ? 1 : 51) { memset(&u, back == 2 ? 0x3c : -back, 16); u.b[i] = (uint8_t)a; u.b[j] = (uint8_t)b; format(u); }
	uint64_t h = i * 64 + j * 4 + back; mc::state(h); mc::outcome(h); mc::nontrivial();
}
static const char* const bases[] = { "{01234567-89AB-CDEF-0123-456789abcdef}", "{FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF}", "{0-1-2-3-4}", " { 1 - 22 - 333 - 4444 - 55555 } ", "{00000000-0000-0000-0000-000000000000}" };
static const char al[] = { '0', 'f', 'F', 'g', '-', '{', '}', ' ', '\0', '+', 'x', '\t', (char)0xa0 };
// Every text one or two edits away from a good one.
MC_HARNESS(edits)
{
	std::string s = mc::pick(bases); size_t n = 1 + mc::choose(2); 
	for (size_t k = 0; k < n; k++) {
		size_t op = mc::choose(4), at = mc::choose(s.size() + (op == 1)); char c = op < 2 ? mc::pick(al) : 0;
		if (op == 0) s[at] = c; else if (op == 1) s.insert(at, 1, c); else if (op == 2) s.erase(at, 1); else s.resize(at);
		if (!k) mc::job();
		if (s.empty()) break;
	}
	parse<char>(s); if (n == 1) { parse<wchar_t>(s); parse<char16_t>(s); }
	mc::state(mc::hash(s)); mc::outcome(mc::hash(s)); id16 u; if (grammar(s, u) == 1) mc::nontrivial();
}
// Every text of six pieces between the braces' neighbourhood.
MC_HARNESS(pieces)
{
	static const char* const ps[] = { "{", "0", "FFFF", "FFFFFFFF", "10000", "100000000", "FFFFFFFFFFFF", "1000000000000", "10000000000000000", "-", "}", " " };
	static const size_t shape[] = { 0, 3, 9, 2, 9, 2, 9, 2, 9, 6, 10 }; // a good text of these pieces
	size_t a = mc::choose(11), b = mc::choose(11);
	mc::job();
	size_t x = mc::choose(12), y = mc::choose(13), c = mc::choose(11), z = mc::choose(12);
	std::string s; for (size_t i = 0; i < 11; i++) { size_t p = shape[i]; if (i == a) p = x; if (i == c) p = z; if (i == b && y < 12) p = y; s += ps[p]; if (i == b && y == 12) s += s.back() == '-' ? "  " : ""; }
	parse<char>(s); mc::state(mc::hash(s)); mc::outcome(mc::hash(s)); id16 u; if (grammar(s, u) == 1) mc::nontrivial();
}
