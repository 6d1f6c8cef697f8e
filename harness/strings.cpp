// String functions against plain references: every pair of short strings, every limit, exactly sized buffers.
#include "common.h"
#include <stdex/string.hpp>
#include <locale.h>
#include <time.h>
#include <memory>
namespace x = stdex;
template <class T> using S = std::basic_string<T>;
template <class T> static std::string sh(const S<T>& s) { std::string r; for (auto c : s) r += (uint32_t)c > 32 && (uint32_t)c < 127 ? std::string(1, (char)c) : mc::str("<%x>", (uint32_t)c); return r; }
template <class T> static S<T> cut(const S<T>& s) { size_t z = s.find((T)0); return z == S<T>::npos ? s : s.substr(0, z); }
template <class T> static S<T> cut(const S<T>& s, size_t n) { return cut(n < s.size() ? s.substr(0, n) : s); }
static uint32_t low(uint32_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static uint32_t upp(uint32_t c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static bool space(uint32_t c) { return c == 32 || (c >= 9 && c <= 13); }
template <class T> static S<T> lower(S<T> s) { for (auto& c : s) c = (T)low((uint32_t)c); return s; }
template <class T> static S<T> upper(S<T> s) { for (auto& c : s) c = (T)upp((uint32_t)c); return s; }
template <class A, class B> static int cmp(const S<A>& a, const S<B>& b)
{
	for (size_t i = 0;; i++) {
		if (i >= a.size() || i >= b.size()) return i < a.size() ? 1 : i < b.size() ? -1 : 0;
		if (a[i] != b[i]) return a[i] > b[i] ? 1 : -1;
	}
}
template <class A> static S<A> rev(S<A> s) { std::reverse(s.begin(), s.end()); return s; }
template <class A, class B> static size_t find(const S<A>& a, const S<B>& b) { for (size_t i = 0; i + b.size() <= a.size(); i++) { size_t k = 0; while (k < b.size() && a[i + k] == b[k]) k++; if (k == b.size()) return i; } return x::npos; }
// Exactly sized copies: without a terminator, and with one.
template <class T> struct ex { std::vector<T> v; explicit ex(const S<T>& s, bool z = false) : v(s.begin(), s.end()) { if (z) v.push_back(0); v.shrink_to_fit(); } const T* p() const { return v.data(); } T* p() { return v.data(); } size_t n() const { return v.size(); } };
// A string of the alphabet; 'Z' stands for a terminator within.
template <class T> static S<T> word(const std::vector<uint32_t>& al, size_t max, bool prejob = false) { size_t n = mc::choose(max + 1); S<T> s; for (size_t i = 0; i < n; i++) { s += (T)mc::pick(al); } return s; }
#define EQ(a, b, what, ...) do { auto va_ = (a); auto vb_ = (b); MC_CHECK((long long)va_ == (long long)vb_, what, "gives %lld instead of %lld for %s", (long long)va_, (long long)vb_, mc::str(__VA_ARGS__).c_str()); } while (0)

static const std::locale& loc() { static std::locale l("C.UTF-8"); return l; }
template <class T> static int sgn(T v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }

template <class A, class B> static void pairs(const std::vector<uint32_t>& al, size_t len)
{
	S<A> a0 = word<A>(al, len);
	mc::job();
	S<B> b0 = word<B>(al, len);
	S<A> a = cut(a0); S<B> b = cut(b0); std::string d = sh(a0) + " and " + sh(b0); const char* w = d.c_str();
	ex<A> az(a0, true), ax(a0); ex<B> bz(b0, true), bx(b0);
	EQ(x::strcmp(az.p(), bz.p()), cmp(a, b), "string.strcmp", "%s", w);
	EQ(x::strncmp(ax.p(), ax.n(), bx.p(), bx.n()), cmp(a, b), "string.strncmp", "%s", w);
	EQ(x::strrcmp(az.p(), bz.p()), cmp(rev(a), rev(b)), "string.strrcmp", "%s", w);
	EQ(x::strrncmp(ax.p(), ax.n(), bx.p(), bx.n()), cmp(rev(a), rev(b)), "string.strrncmp", "%s", w);
	EQ(x::stricmp(az.p(), bz.p()), cmp(lower(a), lower(b)), "string.stricmp", "%s", w);
	EQ(x::strnicmp(ax.p(), ax.n(), bx.p(), bx.n()), cmp(lower(a), lower(b)), "string.strnicmp", "%s", w);
	EQ(x::strstr(az.p(), bz.p()), find(a, b), "string.strstr", "%s", w);
	EQ(x::strnstr(ax.p(), ax.n(), bz.p()), find(a, b), "string.strnstr", "%s", w);
	EQ(x::stristr(az.p(), bz.p()), find(lower(a), lower(b)), "string.stristr", "%s", w);
	EQ(x::strnistr(ax.p(), ax.n(), bz.p()), find(lower(a), lower(b)), "string.strnistr", "%s", w);
	for (size_t n = 0; n <= len; n++) {
		S<A> an = cut(a0, n); S<B> bn = cut(b0, n);
		// A limit past the end needs a terminator.
		EQ(x::strncmp(az.p(), bz.p(), n), cmp(an, bn), "string.strncmp", "%s, %zu", w, n);
		EQ(x::strrncmp(az.p(), bz.p(), n), cmp(rev(an), rev(bn)), "string.strrncmp", "%s, %zu", w, n);
		EQ(x::strnicmp(az.p(), bz.p(), n), cmp(lower(an), lower(bn)), "string.strnicmp", "%s, %zu", w, n);
		EQ(x::strnstr(az.p(), n, bz.p()), find(an, b), "string.strnstr", "%s, %zu", w, n);
		if constexpr (sizeof(A) != 2) if constexpr (sizeof(B) != 2) if constexpr (sizeof(A) == sizeof(B)) EQ(x::strnistr(az.p(), n, bz.p(), loc()), find(lower(an), lower(b)), "string.strnistr", "%s, %zu", w, n);
	}
	// Copying into buffers of every size.
	for (size_t size = 0; size <= len + 2; size++) {
		S<A> conv; for (auto c : b) conv += (A)c;
		ex<A> d1(S<A>(size, (A)'?')); size_t n = x::strncpy(d1.p(), size, bx.p(), bx.n());
		S<A> e = conv.substr(0, std::min(size, conv.size())); bool z = conv.size() < size;
		MC_CHECK(n == e.size() && S<A>(d1.p(), n) == e && (!z || !d1.v[n]), "string.strncpy", "%s copied to a buffer of %zu gives %zu", sh(b0).c_str(), size, n);
		for (size_t k = n + 1; k < size; k++) MC_CHECK(d1.v[k] == (A)'?', "string.strncpy", "copying writes behind the terminator");
		if (size > a.size()) {
			ex<A> d2(S<A>(size, (A)'?')); std::copy(a.begin(), a.end(), d2.v.begin()); d2.v[a.size()] = 0;
			n = x::strncat(d2.p(), size, bx.p(), bx.n()); S<A> all = a + conv; e = all.substr(0, std::min(size, all.size()));
			MC_CHECK(n == e.size() && S<A>(d2.p(), n) == e && (all.size() >= size || !d2.v[n]), "string.strncat", "%s and %s in a buffer of %zu gives %zu", sh(a).c_str(), sh(b0).c_str(), size, n);
		}
		S<A> bn; for (auto c : cut(b0, size)) bn += (A)c;
		ex<A> d3(S<A>(bn.size() + (bn.size() < size), (A)'?')); n = x::strncpy(d3.p(), bz.p(), size);
		MC_CHECK(n == bn.size() && S<A>(d3.p(), n) == bn && (bn.size() == size || !d3.v[n]), "string.strncpy", "%s copied up to %zu gives %zu", sh(b0).c_str(), size, n);
		ex<A> d4(a + S<A>(1, 0) + S<A>(bn.size(), (A)'?')); n = x::strncat(d4.p(), bz.p(), size);
		MC_CHECK(n == a.size() + bn.size() && S<A>(d4.p(), n) == a + bn && !d4.v[n], "string.strncat", "%s and up to %zu of %s gives %zu", sh(a).c_str(), size, sh(b0).c_str(), n);
	}
	S<A> conv; for (auto c : b) conv += (A)c;
	ex<A> d5(S<A>(conv.size() + 1, (A)'?')); EQ(x::strcpy(d5.p(), bz.p()), conv.size(), "string.strcpy", "%s", w); MC_CHECK(S<A>(d5.p()) == conv, "string.strcpy", "%s copies wrong", sh(b0).c_str());
	ex<A> d6(a + S<A>(1, 0) + S<A>(conv.size(), (A)'?')); EQ(x::strcat(d6.p(), bz.p()), a.size() + conv.size(), "string.strcat", "%s", w); MC_CHECK(S<A>(d6.p()) == a + conv, "string.strcat", "%s concatenates wrong", w);
	mc::transition(14 + 8 * len); uint64_t h = mc::hash(d); mc::state(h); mc::outcome(h); if (a.size() && b.size()) mc::nontrivial();
}
static const std::vector<uint32_t> narrow = { 'a', 'A', 'b', 0, '@' }, wide = { 'a', 'A', 0x17E, 0, '[' };
MC_HARNESS(pairs_char) { pairs<char, char>(narrow, mc::thorough() ? 4 : 3); }
MC_HARNESS(pairs_wchar) { pairs<wchar_t, wchar_t>(wide, mc::thorough() ? 4 : 3); }
MC_HARNESS(pairs_char16) { pairs<char16_t, char16_t>(wide, 3); }
MC_HARNESS(pairs_mixed) { size_t k = mc::choose(2); if (k) pairs<wchar_t, char>(narrow, 3); else pairs<char, char16_t>(narrow, 3); }

template <size_t N, class T> struct arr { T a[N]; };
template <class T> static void locale_pairs(const std::vector<uint32_t>& al)
{
	S<T> a0 = word<T>(al, 3);
	mc::job();
	S<T> b0 = word<T>(al, 3); S<T> a = cut(a0), b = cut(b0); ex<T> az(a0, true), ax(a0), bz(b0, true), bx(b0); std::string d = sh(a0) + " and " + sh(b0); const char* w = d.c_str();
	auto L = [](S<T> s) { for (auto& c : s) c = (uint32_t)c == 0x17D ? (T)0x17E : (T)low((uint32_t)c); return s; };
	EQ(x::stricmp(az.p(), bz.p(), loc()), cmp(L(a), L(b)), "string.stricmp", "%s", w);
	EQ(x::strnicmp(ax.p(), ax.n(), bx.p(), bx.n(), loc()), cmp(L(a), L(b)), "string.strnicmp", "%s", w);
	EQ(x::stristr(az.p(), bz.p(), loc()), find(L(a), L(b)), "string.stristr", "%s", w);
	EQ(x::strnistr(ax.p(), ax.n(), bz.p(), loc()), find(L(a), L(b)), "string.strnistr", "%s", w);
	EQ(sgn(x::strcoll(az.p(), bz.p(), loc())), cmp(a, b), "string.strcoll", "%s", w); // code point order in C.UTF-8
	if (a.size() == a0.size() && b.size() == b0.size()) EQ(sgn(x::strncoll(ax.p(), ax.n(), bx.p(), bx.n(), loc())), cmp(a, b), "string.strncoll", "%s", w);
	for (size_t n = 0; n <= 3; n++) EQ(x::strnicmp(az.p(), bz.p(), n, loc()), cmp(L(cut(a0, n)), L(cut(b0, n))), "string.strnicmp", "%s, %zu", w, n);
	// Arrays hold at most their size.
	arr<3, T> A, B; for (size_t i = 0; i < 3; i++) { A.a[i] = i < a0.size() ? a0[i] : 0; B.a[i] = i < b0.size() ? b0[i] : 0; }
	EQ(x::strncmp(A.a, B.a), cmp(a, b), "string.array", "%s", w); EQ(x::strrncmp(A.a, B.a), cmp(rev(a), rev(b)), "string.array", "%s", w);
	EQ(x::strnicmp(A.a, B.a), cmp(lower(a), lower(b)), "string.array", "%s", w); EQ(x::strnicmp(A.a, B.a, loc()), cmp(L(a), L(b)), "string.array", "%s", w);
	EQ(x::strnstr(A.a, bz.p()), find(a, b), "string.array", "%s", w); EQ(x::strnistr(A.a, bz.p()), find(lower(a), lower(b)), "string.array", "%s", w); EQ(x::strnistr(A.a, bz.p(), loc()), find(L(a), L(b)), "string.array", "%s", w);
	{ arr<2, T> D; D.a[0] = D.a[1] = (T)'?'; size_t n = x::strncpy(D.a, B.a); S<T> e = b.substr(0, std::min<size_t>(2, b.size())); MC_CHECK(n == e.size() && S<T>(D.a, n) == e && (n == 2 || !D.a[n]), "string.array", "%s copies wrong to an array", sh(b).c_str()); }
	EQ(x::strnlen(A.a), a.size(), "string.array", "%s", w); EQ(x::isblank(A.a), std::all_of(a.begin(), a.end(), [](T c) { return space((uint32_t)c); }), "string.array", "%s", w); EQ(x::isblank(A.a, loc()), std::all_of(a.begin(), a.end(), [](T c) { return space((uint32_t)c); }), "string.array", "%s", w);
	EQ(x::is7bit(A.a), std::all_of(a.begin(), a.end(), [](T c) { return (uint32_t)c < 128; }), "string.array", "%s", w);
	T ch = b.empty() ? (T)'q' : b[0]; EQ(x::strnchr(A.a, ch), a.find(ch), "string.array", "%s", w); EQ(x::strrnchr(A.a, ch), a.rfind(ch), "string.array", "%s", w); EQ(x::strnichr(A.a, ch), lower(a).find((T)low((uint32_t)ch)), "string.array", "%s", w); EQ(x::strrnichr(A.a, ch), lower(a).rfind((T)low((uint32_t)ch)), "string.array", "%s", w);
	EQ(x::strnichr(A.a, ch, loc()), L(a).find(L(S<T>(1, ch))[0]), "string.array", "%s", w); EQ(x::strrnichr(A.a, ch, loc()), L(a).rfind(L(S<T>(1, ch))[0]), "string.array", "%s", w);
	if constexpr (std::is_same_v<T, char>) { auto C = A; x::strlwr(C.a); MC_CHECK(cut(S<T>(C.a, 3)) == lower(a), "string.array", "strlwr of an array"); C = A; x::strupr(C.a); MC_CHECK(cut(S<T>(C.a, 3)) == upper(a), "string.array", "strupr of an array"); }
	{ auto C = A; x::strlwr(C.a, loc()); MC_CHECK(cut(S<T>(C.a, 3)) == L(a), "string.array", "strlwr of an array"); }
	std::unique_ptr<T[]> dup(x::strndup(A.a)); MC_CHECK(S<T>(dup.get()) == a, "string.strndup", "%s is duplicated wrong from an array", sh(a).c_str());
	mc::transition(30); uint64_t h = mc::hash(d); mc::state(h); mc::outcome(h); mc::nontrivial();
}
MC_HARNESS(locale_char) { locale_pairs<char>({ 'a', 'A', ' ', 0, '[' }); }
MC_HARNESS(locale_wchar) { locale_pairs<wchar_t>({ 'a', 'A', 0x17E, 0x17D, 0 }); }

// One string: searching for units, cases, trimming, line breaks, duplicates.
template <class T> static void single(const std::vector<uint32_t>& al, size_t len)
{
	size_t n0 = mc::choose(len + 1); S<T> s0; for (size_t i = 0; i < n0; i++) { s0 += (T)mc::pick(al); if (i == 1) mc::job(); }
	if (n0 < 2) mc::job();
	S<T> s = cut(s0); std::string d = sh(s0); const char* w = d.c_str(); ex<T> z(s0, true), e(s0);
	EQ(x::strlen(z.p()), s.size(), "string.strlen", "%s", w); EQ(x::strnlen(e.p(), e.n()), s.size(), "string.strnlen", "%s", w);
	for (uint32_t c0 : al) {
		T c = (T)c0; if (!c) continue; T lc = (T)low(c0);
		EQ(x::strchr(z.p(), c), s.find(c), "string.strchr", "%s %x", w, c0); EQ(x::strnchr(e.p(), e.n(), c), s.find(c), "string.strnchr", "%s %x", w, c0);
		EQ(x::strrchr(z.p(), c), s.rfind(c), "string.strrchr", "%s %x", w, c0); EQ(x::strrnchr(e.p(), e.n(), c), s.rfind(c), "string.strrnchr", "%s %x", w, c0);
		EQ(x::strichr(z.p(), c), lower(s).find(lc), "string.strichr", "%s %x", w, c0); EQ(x::strnichr(e.p(), e.n(), c), lower(s).find(lc), "string.strnichr", "%s %x", w, c0);
		EQ(x::strrichr(z.p(), c), lower(s).rfind(lc), "string.strrichr", "%s %x", w, c0); EQ(x::strrnichr(e.p(), e.n(), c), lower(s).rfind(lc), "string.strrnichr", "%s %x", w, c0);
		if constexpr (sizeof(T) != 2) {
			EQ(x::strichr(z.p(), c, loc()), lower(s).find(lc), "string.strichr", "%s %x", w, c0); EQ(x::strnichr(e.p(), e.n(), c, loc()), lower(s).find(lc), "string.strnichr", "%s %x", w, c0);
			EQ(x::strrichr(z.p(), c, loc()), lower(s).rfind(lc), "string.strrichr", "%s %x", w, c0); EQ(x::strrnichr(e.p(), e.n(), c, loc()), lower(s).rfind(lc), "string.strrnichr", "%s %x", w, c0);
		}
	}
	auto trims = [&](S<T> q, bool l, bool r) { if (l) { size_t i = 0; while (i < q.size() && space((uint32_t)q[i])) i++; q = q.substr(i); } if (r) while (!q.empty() && space((uint32_t)q.back())) q.pop_back(); return q; };
	for (int how = 0; how < 3; how++) {
		bool l = how != 1, r = how != 0; S<T> want = trims(s, l, r), whole = trims(s0, l, r);
		for (int lim = 0; lim < 3; lim++) for (int lc = 0; lc < (sizeof(T) == 2 ? 1 : 2); lc++) {
			ex<T> b(s0, lim != 0); size_t cap = lim == 2 ? SIZE_MAX : b.n(), g;
			if constexpr (sizeof(T) != 2) { if (lc) g = how == 0 ? x::ltrim(b.p(), cap, loc()) : how == 1 ? x::rtrim(b.p(), cap, loc()) : x::trim(b.p(), cap, loc()); }
			if (!lc) g = how == 0 ? x::ltrim(b.p(), cap) : how == 1 ? x::rtrim(b.p(), cap) : x::trim(b.p(), cap);
			MC_CHECK(g == want.size() && S<T>(b.p(), g) == want && (g >= b.n() || !b.v[g]), "string.trim", "%s of %s gives %zu", how == 0 ? "ltrim" : how == 1 ? "rtrim" : "trim", w, g);
		}
		S<T> q = s0; how == 0 ? x::ltrim(q) : how == 1 ? x::rtrim(q) : x::trim(q); MC_CHECK(q == whole, "string.trim", "trimming of %s gives %s", w, sh(q).c_str());
		if constexpr (sizeof(T) != 2) { q = s0; how == 0 ? x::ltrim(q, loc()) : how == 1 ? x::rtrim(q, loc()) : x::trim(q, loc()); MC_CHECK(q == whole, "string.trim", "trimming of %s gives %s", w, sh(q).c_str()); }
	}
	for (int u = 0; u < 2; u++) {
		S<T> want = u ? upper(s) : lower(s), rest = s0.substr(s.size());
		ex<T> b(s0), b2(s0); u ? x::strupr(b.p(), b.n()) : x::strlwr(b.p(), b.n()); MC_CHECK(S<T>(b.p(), b.n()) == want + rest, "string.case", "case of %s", w);
		S<T> q = s0; u ? x::strupr(q) : x::strlwr(q); MC_CHECK(q == (u ? upper(s0) : lower(s0)), "string.case", "case of %s", w);
		if constexpr (sizeof(T) != 2) { u ? x::strupr(b2.p(), b2.n(), loc()) : x::strlwr(b2.p(), b2.n(), loc()); MC_CHECK(S<T>(b2.p(), b2.n()) == want + rest, "string.case", "case of %s", w); q = s0; u ? x::strupr(q, loc()) : x::strlwr(q, loc()); MC_CHECK(q == (u ? upper(s0) : lower(s0)), "string.case", "case of %s", w); }
	}
	auto nl = [](const S<T>& q) { S<T> r; for (size_t i = 0; i < q.size(); i++) if (q[i] == '\r' && i + 1 < q.size() && q[i + 1] == '\n') r += (T)'\n', i++; else r += q[i]; return r; };
	{ ex<T> b(S<T>(s.size() + 1, (T)'?')); size_t g = x::crlf2nl(b.p(), z.p()); MC_CHECK(g == nl(s).size() && S<T>(b.p()) == nl(s), "string.crlf2nl", "%s", w); S<T> q(2, (T)'!'); x::crlf2nl(q, z.p()); MC_CHECK(q == nl(s), "string.crlf2nl", "%s", w); q = s0; x::crlf2nl(q); MC_CHECK(q == nl(s0), "string.crlf2nl", "%s", w); }
	bool blank = std::all_of(s.begin(), s.end(), [](T c) { return space((uint32_t)c); }), ascii = std::all_of(s.begin(), s.end(), [](T c) { return (uint32_t)c < 128; });
	EQ(x::isblank(e.p(), e.n()), blank, "string.isblank", "%s", w); EQ(x::is7bit(e.p(), e.n()), ascii, "string.is7bit", "%s", w); if constexpr (sizeof(T) != 2) EQ(x::isblank(e.p(), e.n(), loc()), blank, "string.isblank", "%s", w);
	auto brk = [](T c) { return c == '\n' || c == '\r'; };
	EQ(x::islbreak(e.p(), e.n()), s0.empty() || !brk(s0[0]) ? 0 : s0.size() > 1 && brk(s0[1]) && s0[0] != s0[1] ? 2 : 1, "string.islbreak", "%s", w);
	{ std::unique_ptr<T[]> p(x::strdup(z.p())); MC_CHECK(S<T>(p.get()) == s, "string.strdup", "%s", w); for (size_t n = 0; n <= s0.size(); n++) { ex<T> part(s0.substr(0, n)); std::unique_ptr<T[]> q(x::strndup(part.p(), n)); MC_CHECK(S<T>(q.get()) == cut(s0, n), "string.strndup", "%s, %zu", w, n); } MC_CHECK(x::strdup((const T*)nullptr) == nullptr, "string.strdup", "of nothing"); }
	mc::transition(60); uint64_t h = mc::hash(d); mc::state(h); mc::outcome(h); if (n0 > 1) mc::nontrivial();
}
MC_HARNESS(single_char) { single<char>({ 'a', 'Z', ' ', '\r', '\n', 0, '`' }, mc::thorough() ? 6 : 5); }
MC_HARNESS(single_wchar) { single<wchar_t>({ 'z', 'A', '\t', '\r', '\n', 0, 0x3042 }, mc::thorough() ? 6 : 5); }
MC_HARNESS(single_char16) { single<char16_t>({ 'z', 'A', '\f', '\r', '\n', 0, 0xD83D }, mc::thorough() ? 5 : 4); }

// Classification of every unit.
MC_HARNESS(classes)
{
	size_t block = mc::choose(0x110);
	mc::job();
	auto one = [&](auto t, uint32_t c) {
		typedef decltype(t) T; T u = (T)c; const char* k = "string.class";
		EQ(x::isspace(u), space(c), k, "isspace %x", c); EQ(x::isdigit(u), c >= '0' && c <= '9', k, "isdigit %x", c); EQ(x::islower(u), c >= 'a' && c <= 'z', k, "islower %x", c); EQ(x::isupper(u), c >= 'A' && c <= 'Z', k, "isupper %x", c);
		EQ(x::isalpha(u), low(c) >= 'a' && low(c) <= 'z', k, "isalpha %x", c); EQ(x::ispunct(u), c > 32 && c < 127 && !(c >= '0' && c <= '9') && !(low(c) >= 'a' && low(c) <= 'z'), k, "ispunct %x", c); EQ(x::is7bit(u), c < 128, k, "is7bit %x", c);
		EQ(x::islbreak(u), c == 10 || c == 13, k, "islbreak %x", c); EQ(x::tolower(u), (T)low(c), k, "tolower %x", c); EQ(x::toupper(u), (T)upp(c), k, "toupper %x", c);
	};
	for (uint32_t c = (uint32_t)block << 12; c < ((uint32_t)block + 1) << 12; c++) {
		one(wchar_t(), c); if (c < 0x10000) one(char16_t(), c); if (c < 256) { one((unsigned char)0, c); if (c < 128) one(char(), c); else { char u = (char)c; EQ(x::isspace(u) || x::isdigit(u) || x::isalpha(u) || x::ispunct(u) || x::is7bit(u), false, "string.class", "%x", c); EQ(x::tolower(u), u, "string.class", "%x", c); EQ(x::toupper(u), u, "string.class", "%x", c); } }
		bool comb = (c >= 0x300 && c < 0x370) || (c >= 0x1DC0 && c < 0x1E00) || (c >= 0x20D0 && c < 0x2100) || (c >= 0xFE20 && c < 0xFE30);
		EQ(x::iscombining((wchar_t)c), comb, "string.class", "iscombining %x", c);
		if (c >= 0x10000) { char16_t p[2]; x::ucs4_to_surrogate_pair(p, (wchar_t)c); MC_CHECK(p[0] == 0xD800 + ((c - 0x10000) >> 10) && p[1] == 0xDC00 + ((c - 0x10000) & 0x3FF), "string.surrogates", "%x", c); MC_CHECK(x::is_surrogate_pair(p) && x::surrogate_pair_to_ucs4(p) == (wchar_t)c, "string.surrogates", "%x", c); }
		else { EQ(x::is_high_surrogate((char16_t)c), c >= 0xD800 && c < 0xDC00, "string.surrogates", "%x", c); EQ(x::is_low_surrogate((char16_t)c), c >= 0xDC00 && c < 0xE000, "string.surrogates", "%x", c); }
	}
	mc::transition(0x1000 * 12); mc::state(block); mc::outcome(block); mc::nontrivial();
}

// Glyphs: cutting a string into glyphs forwards and backwards. UTF-16 against UTF-32.
MC_HARNESS(glyphs)
{
	static const std::vector<uint32_t> al = { 'a', 0x301, 0x1F600, 0xD83D, 0xDE00, 0x20D0, 0x17E };
	size_t n = mc::choose(mc::thorough() ? 8 : 7); std::u32string s; for (size_t i = 0; i < n; i++) { s += (char32_t)mc::pick(al); if (i == 1) mc::job(); }
	if (n < 2) mc::job();
	std::u16string h; for (auto c : s) if (c < 0x10000) h += (char16_t)c; else { h += (char16_t)(0xD800 + ((c - 0x10000) >> 10)); h += (char16_t)(0xDC00 + ((c - 0x10000) & 0x3FF)); }
	std::wstring w(s.begin(), s.end()); std::string d = sh(w);
	auto comb = [](uint32_t c) { return c == 0x301 || c == 0x20D0; };
	ex<wchar_t> W(w); ex<char16_t> H(h); auto pair = [&](size_t i) { return i + 1 < h.size() && h[i] >= 0xD800 && h[i] < 0xDC00 && h[i + 1] >= 0xDC00 && h[i + 1] < 0xE000; };
	for (size_t i = 0; i <= w.size(); i++) { size_t k = i; if (k < w.size()) { k++; while (k < w.size() && comb(w[k])) k++; } EQ(x::glyphlen(W.p() + i, w.size() - i), k - i, "string.glyphlen", "%s at %zu", d.c_str(), i); }
	for (size_t i = 0; i <= h.size(); i++) { size_t k = i; if (k < h.size()) { k += pair(k) ? 2 : 1; while (k < h.size() && comb(h[k])) k++; } EQ(x::glyphlen(H.p() + i, h.size() - i), k - i, "string.glyphlen", "%s at %zu of UTF-16", d.c_str(), i); }
	for (size_t i = 1; i <= w.size(); i++) { size_t k = i; while (k && comb(w[k - 1])) k--; if (k) k--; EQ(x::glyphrlen(W.p(), i), i - k, "string.glyphrlen", "%s up to %zu", d.c_str(), i); }
	for (size_t i = 1; i <= h.size(); i++) { size_t k = i; while (k && comb(h[k - 1])) k--; if (k) k--; if (k && h[k] >= 0xDC00 && h[k] < 0xE000 && h[k - 1] >= 0xD800 && h[k - 1] < 0xDC00) k--; EQ(x::glyphrlen(H.p(), i), i - k, "string.glyphrlen", "%s up to %zu of UTF-16", d.c_str(), i); }
	// Copying and comparing UTF-16 with UTF-32.
	std::wstring u; for (size_t i = 0; i < h.size(); i++) if (pair(i)) u += (wchar_t)(0x10000 + ((h[i] - 0xD800) << 10) + (h[i + 1] - 0xDC00)), i++; else u += (wchar_t)h[i];
	ex<char16_t> hz(h, true); ex<wchar_t> o(std::wstring(u.size() + 1, L'?')); EQ(x::strcpy(o.p(), hz.p()), u.size(), "string.strcpy16", "%s", d.c_str()); MC_CHECK(std::wstring(o.p()) == u, "string.strcpy16", "%s", d.c_str());
	for (size_t size = 0; size <= u.size() + 2; size++) { ex<wchar_t> b(std::wstring(size, L'?')); size_t g = x::strncpy(b.p(), size, H.p(), H.n()); MC_CHECK(g == std::min(size, u.size()) && std::wstring(b.p(), g) == u.substr(0, g) && (g == size || !b.v[g]), "string.strncpy16", "%s to %zu", d.c_str(), size); }
	EQ(x::strncmp(W.p(), W.n(), H.p(), H.n()), cmp(w, u), "string.strncmp16", "%s", d.c_str());
	if (!w.empty()) for (uint32_t c : al) { std::wstring v = w; v.back() = (wchar_t)c; ex<wchar_t> V(v); EQ(x::strncmp(V.p(), V.n(), H.p(), H.n()), cmp(v, u), "string.strncmp16", "%s", d.c_str()); ex<wchar_t> Z(v + L'\0' + L'x'); EQ(x::strncmp(Z.p(), Z.n(), H.p(), H.n()), cmp(v, u), "string.strncmp16", "%s", d.c_str()); }
	mc::transition(n * 6); mc::state(mc::hash(s.data(), n * 4)); mc::outcome(mc::hash(s.data(), n * 4)); if (n > 1) mc::nontrivial();
}

// Integers: text to value, saturating as strtol and strtoul do, and the number of units taken.
static const int radices[] = { 10, 16, 0, 2, 8, 36, 3 };
static void integer_ref(const std::string& s, int radix, bool& neg, unsigned __int128& v, bool& big, size_t& end)
{
	size_t i = 0; neg = big = false; v = 0;
	while (i < s.size() && space((uint8_t)s[i])) i++;
	if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
	if ((radix == 16 || !radix) && i + 1 < s.size() && s[i] == '0' && (s[i + 1] | 32) == 'x') i += 2, radix = 16;
	else if (!radix) radix = i < s.size() && s[i] == '0' ? 8 : 10;
	for (; i < s.size(); i++) { int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : (s[i] | 32) >= 'a' && (s[i] | 32) <= 'z' && (s[i] & 0xC0) == 0x40 ? (s[i] | 32) - 'a' + 10 : 99; if (d >= radix) break; v = v * radix + d; if (v >> 64) { big = true; v = (unsigned __int128)1 << 64; } }
	end = i;
}
template <class T> static void integers(const std::string& text, int radix)
{
	size_t zero = text.find('\0'); std::string s = zero == std::string::npos ? text : text.substr(0, zero);
	bool neg, big; unsigned __int128 v; size_t end; integer_ref(s, radix, neg, v, big, end);
	ex<T> e(S<T>(text.begin(), text.end()));
	auto sig = [&](int bits) -> int64_t { unsigned __int128 lim = (unsigned __int128)1 << (bits - 1); return neg ? v >= lim ? (int64_t)(~(uint64_t)0 << (bits - 1)) : -(int64_t)v : v >= lim ? (int64_t)(lim - 1) : (int64_t)v; };
	auto uns = [&](int bits) -> uint64_t { unsigned __int128 lim = (unsigned __int128)1 << bits; uint64_t m = (uint64_t)(lim - 1); return v >= lim ? neg ? 0 : m : (neg ? (uint64_t)0 - (uint64_t)v : (uint64_t)v) & m; };
	std::string d = mc::quote(text.data(), text.size()); const char* w = d.c_str(); size_t n;
#define ONE(f, bits, ref) do { n = 12345; auto g_ = x::f(e.p(), e.n(), &n, radix); EQ(g_, (decltype(g_))ref(bits), "string." #f, "%s radix %d", w, radix); EQ(n, end, "string." #f ".end", "%s radix %d", w, radix); EQ(x::f(e.p(), e.n(), nullptr, radix), g_, "string." #f, "%s", w); } while (0)
	ONE(strto8, 8, sig); ONE(strto16, 16, sig); ONE(strto32, 32, sig); ONE(strto64, 64, sig); ONE(strtoi, 64, sig);
	ONE(strtou8, 8, uns); ONE(strtou16, 16, uns); ONE(strtou32, 32, uns); ONE(strtou64, 64, uns); ONE(strtoui, 64, uns);
	mc::transition(10);
}
MC_HARNESS(integer_texts)
{
	static const char al[] = { '0', '1', '9', 'f', 'x', '-', '+', ' ', 'Z', '\0', '@' };
	int radix = mc::pick(radices); size_t n = mc::choose(mc::thorough() ? 7 : 6); std::string s; for (size_t i = 0; i < n; i++) { s += mc::pick(al); if (i == 1) mc::job(); }
	if (n < 2) mc::job();
	if (n < 4 || mc::thorough()) { integers<wchar_t>(s, radix); integers<char16_t>(s, radix); }
	integers<char>(s, radix);
	mc::state(mc::hash(s)); mc::outcome(mc::hmix(mc::hash(s), radix)); if (n > 1) mc::nontrivial();
}
MC_HARNESS(integer_bounds)
{
	int radix = mc::pick(radices); size_t bits = mc::choose(65); int sign = (int)mc::choose(3), zeros = (int)mc::choose(3), up = (int)mc::choose(2);
	mc::job();
	int r = radix ? radix : 10;
	for (int delta = -40; delta <= 40; delta++) for (int tail = 0; tail < 3; tail++) {
		unsigned __int128 v = ((unsigned __int128)1 << bits) + delta; if (delta < 0 && ((unsigned __int128)1 << bits) < (unsigned)-delta) continue;
		std::string s; do { int d = (int)(v % r); s += (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= r; } while (v);
		std::reverse(s.begin(), s.end()); s = std::string(sign == 1 ? "-" : sign == 2 ? " +" : "") + (zeros == 1 && radix == 16 ? (up ? "0X" : "0x") : zeros == 2 && radix ? "000" : "") + s + (tail == 1 ? "0" : tail == 2 ? "." : "");
		integers<char>(s, radix); if (delta % 20 == 0) integers<wchar_t>(s, radix);
	}
	mc::state(mc::hmix(bits, radix)); mc::outcome(mc::hmix(mc::hmix(bits, radix), sign * 9 + zeros * 3 + up)); mc::nontrivial();
}
// All the 8 and 16-bit values.
MC_HARNESS(integer_all)
{
	size_t block = mc::choose(0x200); int radix = mc::pick(radices); if (!radix) radix = 10;
	mc::job();
	for (int v = (int)block * 256; v < (int)block * 256 + 256; v++) { std::string s; int k = v; do { s += (char)(k % radix < 10 ? '0' + k % radix : 'a' + k % radix - 10); k /= radix; } while (k); std::reverse(s.begin(), s.end()); integers<char>(s, radix); integers<char>("-" + s, radix); }
	mc::state(mc::hmix(block, radix)); mc::outcome(mc::hmix(block, radix)); mc::nontrivial();
}

// Characters whose codes only end like those of digits, letters, signs and spaces end a number as any other does.
template <class T> static void integer_aliases_t()
{
	typedef typename std::make_unsigned<T>::type U;
	static const char* const texts[] = { "12", "-0x1fZ", " +077", "0XaB", "zZ9", "\t-128", "0", "" };
	std::string s = mc::pick(texts); int radix = mc::pick(radices); size_t at = mc::choose(s.size() + 1); bool put = mc::choose(2) || at == s.size();
	mc::job_noskip();
	if (put) s.insert(at, 1, '@'); else s[at] = '@';
	bool neg, big; unsigned __int128 v; size_t end; integer_ref(s, radix, neg, v, big, end);
	ex<T> e0(S<T>(s.begin(), s.end())); uint64_t hash = 0;
	std::vector<uint32_t> al; for (uint32_t c = 0x80; c < 0x100; ++c) al.push_back(c);
	if (sizeof(T) > 1) for (uint32_t hi : { 0x100u, 0xff00u, 0x10000u, 0x80000000u }) if (sizeof(T) > 2 || hi < 0x10000) for (uint32_t c = 0; c < 0x80; ++c) al.push_back(hi + c);
	for (uint32_t c : al) {
		S<T> t(s.begin(), s.end()); t[at] = (T)(U)c; ex<T> e(t); size_t n = 0;
#define ONE(f) do { n = 12345; const auto got_ = x::f(e.p(), e.n(), &n, radix); const auto want_ = x::f(e0.p(), e0.n(), nullptr, radix); hash = mc::hmix(hash, (uint64_t)want_); \
		EQ(got_, want_, "string." #f, "%s with %x at %zu radix %d", s.c_str(), c, at, radix); EQ(n, end, "string." #f ".end", "%s with %x at %zu radix %d", s.c_str(), c, at, radix); } while (0)
		ONE(strto8); ONE(strto16); ONE(strto32); ONE(strto64); ONE(strtoi); ONE(strtou8); ONE(strtou16); ONE(strtou32); ONE(strtou64); ONE(strtoui);
#undef ONE
	}
	mc::transition(al.size()); mc::state(mc::hmix(mc::hash(s), radix)); mc::outcome(hash); if (end) mc::nontrivial();
}
MC_HARNESS(integer_aliases) { size_t k = mc::choose(3); if (k == 0) integer_aliases_t<char>(); else if (k == 1) integer_aliases_t<wchar_t>(); else integer_aliases_t<char16_t>(); }

// Formatting: every length around the internal buffers, whatever was there before and whatever errno holds.
template <class T> static S<T> fmt_s(); template <> S<char> fmt_s() { return "%s%d%s"; } template <> S<wchar_t> fmt_s() { return L"%ls%d%ls"; }
template <class T> static void formatting()
{
	size_t unit = sizeof(T), base = mc::choose(4), before = mc::choose(3); static const int errnos[] = { 0, EOVERFLOW, EINVAL, EILSEQ, ENOMEM }; int en = mc::pick(errnos);
	mc::job();
	size_t from = base == 0 ? 0 : (base == 1 ? 1024 : base == 2 ? 2048 : 4096) / unit - 8;
	static const size_t befores[] = { 0, 1, 5000 };
	static locale_t l = newlocale(LC_ALL_MASK, "C.UTF-8", (locale_t)0);
	for (size_t n = from; n < from + 20; n++) {
		S<T> a(n / 2, (T)'k'), b(n - n / 2, (T)'m'), want = a + S<T>(1, (T)'7') + b, pre(befores[before], (T)'>'), s = pre;
		errno = en; size_t r = x::appendf(s, fmt_s<T>().c_str(), n % 2 ? l : nullptr, a.c_str(), 7, b.c_str());
		MC_CHECK(r == want.size() && s == pre + want, "string.format", "formatting %zu units after %zu gives %zu, string of %zu", want.size(), pre.size(), r, s.size());
		errno = en; s = pre; x::sprintf(s, fmt_s<T>().c_str(), l, a.c_str(), 7, b.c_str()); MC_CHECK(s == want, "string.format", "formatting %zu units gives %zu", want.size(), s.size());
		errno = en; MC_CHECK(x::sprintf(fmt_s<T>().c_str(), l, a.c_str(), 7, b.c_str()) == want, "string.format", "formatting %zu units", want.size());
	}
	mc::transition(60); mc::state(mc::hmix(base, before)); mc::outcome(mc::hmix(mc::hmix(base, before), en)); mc::nontrivial();
}
MC_HARNESS(format_char) { formatting<char>(); }
MC_HARNESS(format_wchar) { formatting<wchar_t>(); }
template <class T> static void timing()
{
	static const char* const fs[] = { "", "%Y-%m-%d", "%p", "%%", "%H:%M:%S|", "%p%p" }; size_t f = mc::choose(6), base = mc::choose(3), before = mc::choose(3); int pm = (int)mc::choose(2);
	mc::job();
	static locale_t l = newlocale(LC_ALL_MASK, "C.UTF-8", (locale_t)0), bare = duplocale(l);
	size_t unit = sizeof(T), from = base == 0 ? 0 : (base == 1 ? 1024 : 2048) / unit - 14; struct tm t = {}; t.tm_year = 124; t.tm_mon = 1; t.tm_mday = 29; t.tm_hour = pm ? 15 : 3; t.tm_min = 4; t.tm_sec = 5; t.tm_zone = "";
	const char* const out[] = { "", "2024-02-29", pm ? "PM" : "AM", "%", pm ? "15:04:05|" : "03:04:05|", pm ? "PMPM" : "AMAM" };
	static const size_t befores[] = { 0, 1, 3000 };
	for (size_t n = from; n < from + 20; n++) {
		std::string fa(n, 'x'), fb = fs[f], o = fa + out[f]; fa += fb; S<T> F(fa.begin(), fa.end()), want(o.begin(), o.end()), pre(befores[before], (T)'>'), s = pre;
		x::strcatftime(s, F.c_str(), &t, l); MC_CHECK(s == pre + want, "string.time", "%s after %zu units in time format gives %zu units instead of %zu", fs[f], n, s.size() - pre.size(), want.size());
		x::strftime(s, F.c_str(), &t, l); MC_CHECK(s == want && x::strftime(F.c_str(), &t, l) == want, "string.time", "%s after %zu units in time format", fs[f], n);
	}
	mc::transition(40); mc::state(mc::hmix(f, base)); mc::outcome(mc::hmix(mc::hmix(f, base), before * 2 + pm)); mc::nontrivial();
}
MC_HARNESS(time_char) { timing<char>(); }
MC_HARNESS(time_wchar) { timing<wchar_t>(); }
MC_HARNESS(floats)
{
	static const char al[] = { '1', '5', '.', 'e', '-', '+', ' ', '0', 'x', ',', '\0', 'i' };
	size_t n = mc::choose(mc::thorough() ? 7 : 6); std::string t; for (size_t i = 0; i < n; i++) { t += mc::pick(al); if (i == 1) mc::job(); }
	if (n < 2) mc::job();
	static locale_t l = newlocale(LC_ALL_MASK, "C.UTF-8", (locale_t)0);
	std::string s = t.c_str(); char* e; double d = ::strtod(s.c_str(), &e); size_t want = e - s.c_str(), n1 = 9, n2 = 9;
	ex<char> a(t); ex<wchar_t> b(std::wstring(t.begin(), t.end())); double g = x::strtod(a.p(), a.n(), &n1, l), h = x::strtod(b.p(), b.n(), &n2, l);
	MC_CHECK(memcmp(&g, &d, 8) == 0 && memcmp(&h, &d, 8) == 0 && n1 == want && n2 == want, "string.strtod", "%s gives %g and %g (%zu, %zu)", mc::quote(t.data(), t.size()).c_str(), g, h, n1, n2);
	mc::transition(2); mc::state(mc::hash(t)); mc::outcome(mc::hash(t)); if (n > 1) mc::nontrivial();
}
