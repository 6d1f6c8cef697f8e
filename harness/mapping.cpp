// U02: index mapping against a linear scan, intervals against their definition.
#include "mc.h"
#include <stdex/compat.hpp>
#include <stdex/interval.hpp>
#include <stdex/mapping.hpp>
#include <algorithm>
#include <string>

template <class T> using V = stdex::mapping_vector<T>;
template <class T> static std::string sh(const V<T>& v) { std::string s; for (auto& e : v) s += mc::str(" %lld>%lld", (long long)e.from, (long long)e.to); return s; }
// what the mapping says: exact elements map as they say, others are relative to the nearest element before, or nothing before the first
template <class T, class A, class B> static bool good(const V<T>& v, T x, T got, A key, B val)
{
	if (v.empty()) return got == x;
	bool any = false, hit = false; const stdex::mapping<T>* last = nullptr;
	for (auto& e : v) { if (key(e) == x) { any = true; hit |= got == val(e); } if (key(e) < x) last = &e; }
	if (any) return hit;
	return last ? got == (T)(val(*last) + (x - key(*last))) : got == std::min<T>(x, val(v[0]));
}
template <class T> static void check(const V<T>& v, T lo, T hi, size_t hops)
{
	auto F = [](const stdex::mapping<T>& e) { return e.from; }; auto G = [](const stdex::mapping<T>& e) { return e.to; };
	V<T> inv = v; for (auto& e : inv) e.invert();
	for (T x = lo; x <= hi; x++) {
		T a = stdex::dst2src(v, x), b = stdex::src2dst(v, x);
		MC_CHECK(good(v, x, a, G, F), "mapping.dst2src", "%lld of%s gives %lld", (long long)x, sh(v).c_str(), (long long)a);
		MC_CHECK(good(v, x, b, F, G), "mapping.src2dst", "%lld of%s gives %lld", (long long)x, sh(v).c_str(), (long long)b);
		MC_CHECK(good(inv, x, stdex::src2dst(inv, x), F, G) && good(inv, x, stdex::dst2src(inv, x), G, F), "mapping.invert", "%lld of inverted%s", (long long)x, sh(v).c_str());
		for (size_t h = 0; h < std::max<size_t>(v.size(), 1); h++) {
			// a hint left by any query must do for any other
			size_t m = h, n = h; T p = x;
			for (size_t k = 0; k < hops; k++) {
				T c = stdex::dst2src(v, p, m), d = stdex::src2dst(v, p, n);
				MC_CHECK(good(v, p, c, G, F), "mapping.dst2src_hint", "%lld of%s starting from %zu gives %lld", (long long)p, sh(v).c_str(), h, (long long)c);
				MC_CHECK(good(v, p, d, F, G), "mapping.src2dst_hint", "%lld of%s starting from %zu gives %lld", (long long)p, sh(v).c_str(), h, (long long)d);
				MC_CHECK(v.empty() || (m < v.size() && n < v.size()), "mapping.hint", "%lld of%s leaves a hint of %zu, %zu", (long long)p, sh(v).c_str(), m, n);
				p = (T)(lo + (p - lo + 3 + (T)k) % (hi - lo + 1));
			}
			mc::transition(hops);
		}
	}
}
template <class T> static void tables(int base, size_t len, int span)
{
	V<T> v; int f = base, t = base; size_t n = mc::choose(len + 1); uint64_t h = n;
	for (size_t i = 0; i < n; i++) {
		int df = (int)mc::choose(span + 1), dt = (int)mc::choose(span + 1);
		f += df; t += dt; v.push_back(stdex::mapping<T>((T)f, (T)t)); h = mc::hmix(mc::hmix(h, f), t);
		if (i == 1) mc::job();
	}
	if (n < 2) mc::job();
	check<T>(v, (T)base, (T)(std::max(f, t) + 3), 4);
	mc::state(h); mc::outcome(h); if (n > 1) mc::nontrivial();
}
MC_HARNESS(unsigned_indices) { tables<size_t>(0, mc::thorough() ? 7 : 5, 2); }
MC_HARNESS(signed_indices) { tables<int>(-5, mc::thorough() ? 5 : 4, 3); }
MC_HARNESS(long_tables)
{
	size_t n = 1 + mc::choose(70), kind = mc::choose(4);
	mc::job();
	V<uint32_t> v; uint32_t f = 1, t = 2; for (size_t i = 0; i < n; i++) { v.emplace_back(f, t); f += kind & 1 ? 3 : 1; t += kind & 2 ? 1 + (uint32_t)i % 4 : 2; }
	check<uint32_t>(v, 0, std::max(f, t) + 3, 3);
	mc::state(n * 4 + kind); mc::outcome(n * 4 + kind); mc::nontrivial();
}
// Tables longer than a narrow position could count: every query of the short ones, those around the borders and a spread of others in the long ones; every hint of the short ones.
MC_HARNESS(longer_tables)
{
	static const size_t sizes[] = { 127, 128, 129, 255, 256, 257, 300, 513, 1000, 32768, 65535, 65536, 65537, 70001 };
	size_t n = mc::pick(sizes), kind = mc::choose(4);
	mc::job();
	V<uint32_t> v; uint32_t f = 1, t = 2; for (size_t i = 0; i < n; i++) { v.emplace_back(f, t); f += kind & 1 ? 3 : 1; t += kind & 2 ? 1 + (uint32_t)i % 4 : 2; }
	uint32_t hi = std::max(f, t) + 3; uint32_t step = n < 600 ? 1 : n < 5000 ? 3 : 997;
	auto one = [&](uint32_t x, size_t h) {
		size_t m = h, k = h; uint32_t c = stdex::dst2src(v, x, m), d = stdex::src2dst(v, x, k);
		auto ref = [&](bool to) { auto key = [&](size_t i) { return to ? v[i].to : v[i].from; }; auto val = [&](size_t i) { return to ? v[i].from : v[i].to; };
			size_t l = 0, r = n; while (l < r) { size_t y = (l + r) / 2; if (key(y) <= x) l = y + 1; else r = y; } // l: first that starts past x
			return l ? val(l - 1) + (x - key(l - 1)) : std::min(x, val(0)); };
		MC_CHECK(c == ref(true), "mapping.dst2src", "%u in a table of %zu (kind %zu) starting from %zu gives %u instead of %u", x, n, kind, h, c, ref(true));
		MC_CHECK(d == ref(false), "mapping.src2dst", "%u in a table of %zu (kind %zu) starting from %zu gives %u instead of %u", x, n, kind, h, d, ref(false));
		MC_CHECK(m < n && k < n, "mapping.hint", "%u in a table of %zu leaves a hint of %zu, %zu", x, n, m, k);
		if (!h) MC_CHECK(stdex::dst2src(v, x) == c && stdex::src2dst(v, x) == d, "mapping.hint", "%u in a table of %zu without a hint", x, n);
		mc::transition();
	};
	for (uint32_t x = 0; x <= hi; x += step) for (size_t h : { (size_t)0, n / 2, n - 1, (size_t)255, (size_t)256 }) if (h < n) one(x, h);
	for (size_t i : { (size_t)0, (size_t)126, (size_t)127, (size_t)128, (size_t)254, (size_t)255, (size_t)256, (size_t)257, (size_t)32767, (size_t)65534, (size_t)65535, (size_t)65536, n - 2, n - 1 }) if (i < n)
		for (int e = -2; e <= 2; e++) for (uint32_t b : { v[i].from, v[i].to }) if ((int64_t)b + e >= 0) for (size_t h : { (size_t)0, i ? i - 1 : 0, i, i + 1, n - 1 }) if (h < n) one(b + e, h);
	mc::state(n * 4 + kind); mc::outcome(n * 4 + kind); mc::nontrivial();
}
template <class T> static void intervals(int lo, int hi)
{
	T a = (T)(lo + (int)mc::choose(hi - lo + 1)), b = (T)(lo + (int)mc::choose(hi - lo + 1));
	mc::job();
	typedef stdex::interval<T> I; I i(a, b);
	const char* k = "interval"; long long A = a, B = b;
	MC_CHECK(i.size() == (T)(a <= b ? b - a : 0) && i.empty() == (a >= b) && (bool)i == (a <= b) && i.start == a && i.end == b, k, "[%lld, %lld)", A, B);
	I z; MC_CHECK(!z && z.empty() && !z.size(), k, "default"); z = i; z.invalidate(); MC_CHECK(!z && z.empty() && !z.size() && z == I(), k, "invalidated"); I e(a); MC_CHECK(e && e.empty() && e.start == a && e.end == a, k, "empty at %lld", A);
	for (int x = lo; x <= hi; x++) {
		T X = (T)x; MC_CHECK(i.contains(X) == (a <= X && X < b), k, "[%lld, %lld) contains %d", A, B, x);
		I p((T)(a + X), (T)(b + X)), m((T)(a - X), (T)(b - X)), j = i;
		MC_CHECK(i + X == p && i - X == m && (j += X) == p && j == p && (j -= X) == i && j == i, k, "[%lld, %lld) moved by %d", A, B, x);
		for (int y = lo; y <= hi; y++) {
			T Y = (T)y; I o(X, Y); MC_CHECK(i + o == I((T)(a + X), (T)(b + Y)) && i - o == I((T)(a - X), (T)(b - Y)) && (i == o) == (a == X && b == Y) && (i != o) == !(a == X && b == Y), k, "[%lld, %lld) and [%d, %d)", A, B, x, y);
		}
	}
	I j = i; MC_CHECK(++j == I((T)(a + 1), (T)(b + 1)) && j++ == I((T)(a + 1), (T)(b + 1)) && j == I((T)(a + 2), (T)(b + 2)) && --j == I((T)(a + 1), (T)(b + 1)) && j-- == I((T)(a + 1), (T)(b + 1)) && j == i, k, "[%lld, %lld) stepped", A, B);
	mc::transition((hi - lo + 1) * (hi - lo + 1)); uint64_t h = mc::hmix(mc::hmix(1, a), b); mc::state(h); mc::outcome(h); if (a < b) mc::nontrivial();
}
MC_HARNESS(intervals_int) { intervals<int>(-8, 8); }
MC_HARNESS(intervals_size) { intervals<size_t>(0, 12); }
MC_HARNESS(intervals_byte) { intervals<uint8_t>(mc::thorough() ? 200 : 240, 255); }
