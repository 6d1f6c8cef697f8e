// U03: overflow-checked arithmetic, n*k/q, rotation and byte order, compared with wide arithmetic.
#include "mc.h"
#include <stdex/compat.hpp>
#include <stdex/endian.hpp>
#include <stdex/math.hpp>
#include <limits>
#include <stdexcept>
#include <string.h>
#include <vector>

typedef unsigned __int128 u128; typedef __int128 i128;
static const std::vector<uint64_t>& edges() { static std::vector<uint64_t> v; if (v.empty()) { for (int b = 0; b < 65; b++) for (int d = -2; d <= 2; d++) { u128 x = ((u128)1 << b) + d; if (x <= UINT64_MAX) v.push_back((uint64_t)x); } for (uint64_t x : { 10ull, 100ull, 255ull, 6700417ull, 4294967291ull, 4294836225ull, 3037000500ull, 6148914691236517205ull, 12297829382473034411ull, 1000000007ull }) v.push_back(x); } return v; }
template <class F> static bool over(F f, size_t& r) { try { r = f(); return false; } catch (const std::invalid_argument&) { return true; } }
MC_HARNESS(checked)
{
	uint64_t a = mc::pick(edges());
	mc::job();
	auto one = [&](uint64_t a, uint64_t b) {
		u128 p = (u128)a * b, s = (u128)a + b; size_t r = 0;
		bool o = over([&] { return stdex::mul(a, b); }, r); MC_CHECK(o == (p > SIZE_MAX) && (o || r == p), "math.mul", "%llu * %llu %s %zu", (unsigned long long)a, (unsigned long long)b, o ? "throws" : "gives", r);
		o = over([&] { return stdex::add(a, b); }, r); MC_CHECK(o == (s > SIZE_MAX) && (o || r == s), "math.add", "%llu + %llu %s %zu", (unsigned long long)a, (unsigned long long)b, o ? "throws" : "gives", r);
	};
	for (uint64_t b : edges()) one(a, b);
	for (uint64_t d = 0; d < 5; d++) { if (a) one(a, SIZE_MAX / a + d - 2); one(a, SIZE_MAX - a + d - 2); }
	mc::transition(edges().size() * 2 + 20); mc::state(a); mc::outcome(a); if (a > 1) mc::nontrivial();
}
MC_HARNESS(small_products)
{
	size_t k = mc::choose(256);
	mc::job();
	// every 16-bit triple of a coarse grid and every small one
	for (int n = (int)k * 256 - 32768; n < (int)k * 256 - 32768 + 256; n++) for (int m = -8; m <= 8; m++) for (int q = -9; q <= 9; q++) if (q) {
		MC_CHECK(stdex::muldiv((int32_t)n, (int32_t)m, (int32_t)q) == n * m / q && stdex::muldiv((int64_t)n, (int64_t)m, (int64_t)q) == (int64_t)n * m / q, "math.muldiv", "%d * %d / %d", n, m, q);
		if (n >= 0 && m >= 0 && q > 0) MC_CHECK(stdex::muldiv((uint32_t)n, (uint32_t)m, (uint32_t)q) == (uint32_t)(n * m / q) && stdex::muldiv((uint64_t)n, (uint64_t)m, (uint64_t)q) == (uint64_t)(n * m / q), "math.muldiv", "unsigned %d * %d / %d", n, m, q);
	}
	mc::transition(256 * 17 * 18); mc::state(k); mc::outcome(k); mc::nontrivial();
}
template <class T, class W> static void muldivs(const char* name)
{
	const auto& e = edges(); T n = (T)mc::pick(e);
	mc::job();
	W lo = (W)std::numeric_limits<T>::min(), hi = (W)std::numeric_limits<T>::max(); size_t done = 0;
	for (uint64_t k0 : e) for (uint64_t q0 : e) for (int neg = 0; neg < (std::numeric_limits<T>::is_signed ? 4 : 1); neg++) {
		T k = (T)k0, q = (T)q0; if (neg & 1) { if (k == std::numeric_limits<T>::min()) continue; k = (T)(0 - k); } if (neg & 2) { if (q == std::numeric_limits<T>::min()) continue; q = (T)(0 - q); }
		if (!q) continue; W w = (W)n * (W)k / (W)q; if (w < lo || w > hi) continue; // not representable: not claimed
		done++;
		MC_CHECK(stdex::muldiv(n, k, q) == (T)w, name, "%lld * %lld / %lld is not %lld", (long long)n, (long long)k, (long long)q, (long long)w);
	}
	mc::transition(done); mc::state((uint64_t)n); mc::outcome((uint64_t)n); mc::nontrivial();
}
MC_HARNESS(muldiv_i32) { muldivs<int32_t, i128>("math.muldiv32"); }
MC_HARNESS(muldiv_u32) { muldivs<uint32_t, u128>("math.muldivu32"); }
MC_HARNESS(muldiv_i64) { muldivs<int64_t, i128>("math.muldiv64"); }
MC_HARNESS(muldiv_u64) { muldivs<uint64_t, u128>("math.muldivu64"); }
// Every 16-bit half of a word and every number of bits.
MC_HARNESS(rotation)
{
	uint32_t hi = (uint32_t)mc::choose(256), form = (uint32_t)mc::choose(3);
	mc::job();
	for (uint32_t lo = 0; lo < 256; lo++) for (int bits = 0; bits < 32; bits++) {
		uint32_t v = form == 0 ? hi << 8 | lo : form == 1 ? hi << 24 | lo : ~(hi << 16 | lo << 8), r = 0; for (int i = 0; i < 32; i++) if (v >> i & 1) r |= 1u << (i + bits) % 32;
		MC_CHECK(stdex::rol(v, bits) == r, "math.rol", "%08x by %d is %08x instead of %08x", v, bits, stdex::rol(v, bits), r);
	}
	mc::transition(256 * 32); mc::state(hi * 3 + form); mc::outcome(hi * 3 + form); mc::nontrivial();
}
template <class T> static void swapped(T v)
{
	uint8_t a[sizeof(T)], b[sizeof(T)]; T r = stdex::byteswap(v), p = v; memcpy(a, &v, sizeof v); memcpy(b, &r, sizeof r);
	bool same = true; for (size_t i = 0; i < sizeof v; i++) same &= a[i] == b[sizeof v - 1 - i];
	stdex::byteswap(&p); MC_CHECK(same && !memcmp(&p, &r, sizeof r), "endian.byteswap", "%zu bytes %s", sizeof v, mc::hex(&v, sizeof v).c_str());
	T le = LE2HE(v), hl = HE2LE(v), be = BE2HE(v), hb = HE2BE(v); MC_CHECK(!memcmp(&le, &v, sizeof v) && !memcmp(&hl, &v, sizeof v) && !memcmp(&be, &r, sizeof v) && !memcmp(&hb, &r, sizeof v), "endian.order", "%zu bytes %s", sizeof v, mc::hex(&v, sizeof v).c_str());
}
MC_HARNESS(byte_order)
{
	uint32_t k = (uint32_t)mc::choose(256);
	mc::job();
	for (uint32_t l = 0; l < 256; l++) {
		uint16_t h = (uint16_t)(k << 8 | l); swapped(h); swapped((int16_t)h); swapped((uint8_t)l); swapped((int8_t)l);
		{ char c = (char)l; MC_CHECK((uint8_t)stdex::byteswap(c) == l, "endian.byteswap", "char"); stdex::byteswap(&c); MC_CHECK((uint8_t)c == l, "endian.byteswap", "char"); }
		for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (i != j) { uint32_t w = k << 8 * i | l << 8 * j; swapped(w); swapped((int32_t)w); swapped(~w); }
		for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) if (i != j) { uint64_t w = (uint64_t)k << 8 * i | (uint64_t)l << 8 * j; swapped(w); swapped((int64_t)w); swapped(~w); }
		// swapped floats may be signalling NaN, which only moving as a floating-point value may change: those through memory
		{ float f = (float)(k * 256 + l), g = f; stdex::byteswap(&g); uint32_t a, b; memcpy(&a, &f, 4); memcpy(&b, &g, 4); MC_CHECK(a == __builtin_bswap32(b), "endian.byteswap", "float"); g = stdex::byteswap(f); memcpy(&b, &g, 4); MC_CHECK(a == __builtin_bswap32(b), "endian.byteswap", "float"); }
		{ double f = k * 256 + l, g = f; stdex::byteswap(&g); uint64_t a, b; memcpy(&a, &f, 8); memcpy(&b, &g, 8); MC_CHECK(a == __builtin_bswap64(b), "endian.byteswap", "double"); g = stdex::byteswap(f); memcpy(&b, &g, 8); MC_CHECK(a == __builtin_bswap64(b), "endian.byteswap", "double"); }
	}
	mc::transition(256 * 200); mc::state(k); mc::outcome(k); mc::nontrivial();
}
