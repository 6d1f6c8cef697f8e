// Hashes against independent references: every message length, every way to cut a message up, reuse, streams.
#include "common.h"
#include <math.h>
#include <stdex/hash.hpp>
#include <sys/mman.h>
using namespace stdex::stream;

// --- references, written from the standards ---------------------------------------------------------------------------
static uint32_t ref_crc(const uint8_t* d, size_t n, uint32_t crc = 0)
{
	crc = ~crc;
	for (size_t i = 0; i < n; i++) { crc ^= d[i]; for (int k = 0; k < 8; k++) crc = crc & 1 ? crc >> 1 ^ 0xEDB88320u : crc >> 1; }
	return ~crc;
}
static inline uint32_t rl(uint32_t x, unsigned n) { return x << n | x >> (32 - n); }
struct ref_md {
	uint32_t s[5]; bool sha; uint64_t n = 0; uint8_t q[64];
	ref_md(bool sha) : sha(sha) { s[0] = 0x67452301; s[1] = 0xEFCDAB89; s[2] = 0x98BADCFE; s[3] = 0x10325476; s[4] = 0xC3D2E1F0; }
	void block(const uint8_t* p)
	{
		uint32_t a = s[0], b = s[1], c = s[2], d = s[3], e = s[4];
		if (sha) {
			uint32_t w[80];
			for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
			for (int i = 16; i < 80; i++) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
			for (int i = 0; i < 80; i++) {
				uint32_t f, k;
				if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999; else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1;
				else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC; else f = b ^ c ^ d, k = 0xCA62C1D6;
				uint32_t t = rl(a, 5) + f + e + k + w[i];
				e = d; d = c; c = rl(b, 30); b = a; a = t;
			}
			s[4] += e;
		}
		else {
			static const unsigned r[16] = { 7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21 };
			static uint32_t K[64];
			if (!K[0]) for (int i = 0; i < 64; i++) K[i] = (uint32_t)(fabs(sin((double)(i + 1))) * 4294967296.0);
			uint32_t w[16]; for (int i = 0; i < 16; i++) w[i] = p[4 * i] | p[4 * i + 1] << 8 | p[4 * i + 2] << 16 | (uint32_t)p[4 * i + 3] << 24;
			for (int i = 0; i < 64; i++) {
				uint32_t f; int g;
				if (i < 16) f = (b & c) | (~b & d), g = i; else if (i < 32) f = (d & b) | (~d & c), g = (5 * i + 1) % 16;
				else if (i < 48) f = b ^ c ^ d, g = (3 * i + 5) % 16; else f = c ^ (b | ~d), g = 7 * i % 16;
				uint32_t t = d; d = c; c = b; b = b + rl(a + f + K[i] + w[g], r[i / 16 * 4 + i % 4]); a = t;
			}
		}
		s[0] += a; s[1] += b; s[2] += c; s[3] += d;
	}
	void add(const uint8_t* p, size_t k)
	{
		size_t at = n % 64; n += k;
		if (at) { size_t m = std::min(k, 64 - at); memcpy(q + at, p, m); p += m; k -= m; if (at + m < 64) return; block(q); }
		for (; k >= 64; p += 64, k -= 64) block(p);
		memcpy(q, p, k);
	}
	bytes done()
	{
		uint64_t bits = n * 8; uint8_t pad[64] = { 0x80 }, len[8];
		add(pad, n % 64 < 56 ? 56 - n % 64 : 120 - n % 64);
		for (int i = 0; i < 8; i++) len[i] = (uint8_t)(bits >> 8 * (sha ? 7 - i : i));
		add(len, 8);
		bytes o; for (int i = 0; i < (sha ? 20 : 16); i++) o.push_back((uint8_t)(s[i / 4] >> 8 * (sha ? 3 - i % 4 : i % 4)));
		return o;
	}
};
struct Crc {
	static constexpr const char* name = "crc32"; typedef stdex::crc32_hash H; typedef stdex::crc32_t V;
	static bytes ref(const uint8_t* d, size_t n) { uint32_t c = ref_crc(d, n); bytes o(4); memcpy(o.data(), &c, 4); return o; }
};
struct Md5 { static constexpr const char* name = "md5"; typedef stdex::md5_hash H; typedef stdex::md5_t V; static bytes ref(const uint8_t* d, size_t n) { ref_md r(false); r.add(d, n); return r.done(); } };
struct Sha1 { static constexpr const char* name = "sha1"; typedef stdex::sha1_hash H; typedef stdex::sha1_t V; static bytes ref(const uint8_t* d, size_t n) { ref_md r(true); r.add(d, n); return r.done(); } };
template <class V> static bytes raw(const V& v) { bytes b(sizeof v); memcpy(b.data(), &v, sizeof v); return b; }
template <class A> static void expect(typename A::H& h, const bytes& ref, const char* what, size_t n)
{
	h.finalize();
	bytes v = raw((const typename A::V&)h);
	MC_CHECK(v == ref && v == raw(h.data()) && h.size() == v.size(), mc::str("hash.%s", A::name), "%s of %zu bytes %s is %s, expected %s", A::name, n, what, mc::hex(v.data(), v.size()).c_str(), mc::hex(ref.data(), ref.size()).c_str());
}
static bytes content(size_t n, size_t kind) { bytes b(n); uint32_t x = 12345; for (size_t i = 0; i < n; i++) b[i] = kind == 0 ? 0 : kind == 1 ? 0xFF : (uint8_t)((x = x * 1664525 + 1013904223) >> 24); return b; }

// Every length, every cut in two, and cuts in three around block boundaries; one object hashes one message after another.
template <class A> static void lengths()
{
	size_t n = mc::choose(mc::thorough() ? 700 : 270), kind = mc::choose(3);
	mc::job();
	bytes b = content(n, kind), r = A::ref(b.data(), n);
	// Exactly sized: reading past the end is seen.
	typename A::H h; uint64_t ops = 0;
	h.hash(b.data(), n); expect<A>(h, r, "in one piece", n);
	if (!n) { typename A::H e; expect<A>(e, r, "without a call", n); h.clear(); h.hash(nullptr, 0); expect<A>(h, r, "as nothing", n); }
	for (size_t c = 0; c <= n; c++) {
		h.clear(); h.hash(b.data(), c); h.hash(b.data() + c, n - c); expect<A>(h, r, "in two pieces", n); ops += 2;
		if (kind == 2 && (c % 64 < 3 || c % 64 > 54))
			for (size_t d = c; d <= n; d++) if (d - c < 10 || d % 64 < 2 || d % 64 > 62) {
				h.clear(); h.hash(b.data(), c); h.hash(b.data() + c, d - c); h.hash(b.data() + d, n - d); expect<A>(h, r, "in three pieces", n); ops += 3;
			}
		// A message that is abandoned leaves nothing behind.
		h.clear(); h.hash(b.data(), c); h.clear(); h.hash(b.data(), n); expect<A>(h, r, "after an abandoned one", n);
	}
	mc::transition(ops); mc::state(mc::hmix(n, kind)); mc::outcome(mc::hash(r.data(), r.size())); mc::nontrivial();
}
MC_HARNESS(crc32_lengths) { lengths<Crc>(); }
MC_HARNESS(md5_lengths) { lengths<Md5>(); }
MC_HARNESS(sha1_lengths) { lengths<Sha1>(); }

// Every message of up to two bytes, every value of every byte of a block.
template <class A> static void values()
{
	size_t a = mc::choose(256);
	mc::job();
	typename A::H h; bytes b;
	auto one = [&] { h.clear(); h.hash(b.data(), b.size()); expect<A>(h, A::ref(b.data(), b.size()), show(b).c_str(), b.size()); };
	b = { (uint8_t)a }; one();
	for (size_t i = 0; i < 256; i++) { b = { (uint8_t)a, (uint8_t)i }; one(); }
	for (size_t i = 0; i < 64; i++) { b = content(64, 2); b[i] = (uint8_t)a; one(); }
	mc::transition(321); mc::state(a); mc::outcome(a); mc::nontrivial();
}
MC_HARNESS(crc32_values) { values<Crc>(); }
MC_HARNESS(md5_values) { values<Md5>(); }
MC_HARNESS(sha1_values) { values<Sha1>(); }

// Every sequence of piece sizes.
template <class A> static void pieces()
{
	static const size_t sizes[] = { 0, 1, 7, 8, 55, 56, 63, 64, 65, 127, 128, 129 };
	static const bytes all = content(1200, 2);
	size_t k = mc::thorough() ? 5 : 4, at = 0; typename A::H h;
	for (size_t i = 0; i < k; i++) {
		size_t n = mc::pick(sizes); h.hash(all.data() + at, n); at += n;
		if (i == 1) mc::job();
	}
	bytes r = A::ref(all.data(), at); expect<A>(h, r, "in pieces", at);
	mc::transition(k); mc::state(at); mc::outcome(mc::hash(r.data(), r.size())); mc::nontrivial();
}
MC_HARNESS(crc32_pieces) { pieces<Crc>(); }
MC_HARNESS(md5_pieces) { pieces<Md5>(); }
MC_HARNESS(sha1_pieces) { pieces<Sha1>(); }

// A CRC continues from the value of what precedes.
MC_HARNESS(crc32_continue)
{
	size_t n = mc::choose(150), c = mc::choose(n + 1);
	mc::job();
	bytes b = content(n, 2);
	stdex::crc32_hash first; first.hash(b.data(), c); first.finalize();
	stdex::crc32_hash h(first.data()); h.hash(b.data() + c, n - c);
	expect<Crc>(h, Crc::ref(b.data(), n), "continued", n);
	mc::transition(2); mc::state(mc::hmix(n, c)); mc::outcome(h.data()); mc::nontrivial();
}

// Exactly what passes through a hashed stream is hashed, whatever the stream below does.
template <class A> static void through()
{
	static const size_t lens[] = { 0, 1, 3, 60, 64, 70 };
	mc::set_deviation_bound(2);
	bool writing = mc::flip(); size_t total = mc::pick(lens) + mc::choose(5); bool error = mc::flip();
	mc::job();
	short_source src(content(total, 2)); if (error && !writing) src.fail_at = total / 2;
	short_sink dst(error);
	typename A::H h; bytes passed, all = content(800, 2); size_t at = 0;
	basic& below = writing ? (basic&)dst : (basic&)src;
	{
		stdex::stream_hasher<typename A::V> s(h, below);
		size_t depth = mc::thorough() ? 5 : 4;
		for (size_t i = 0; i < depth; i++) {
			size_t n = mc::pick(lens);
			if (writing) {
				size_t before = dst.data.size(), k = s.write(all.data() + at, n); at += n;
				MC_CHECK(k == dst.data.size() - before && s.state() == dst.state(), "hasher.write", "write(%zu) returns %zu, state %s; %zu bytes arrived, state %s", n, k, st_name(s.state()), dst.data.size() - before, st_name(dst.state()));
			}
			else {
				bytes b(n); size_t before = src.pos, k = s.read(b.data(), n);
				MC_CHECK(k == src.pos - before && s.state() == src.state(), "hasher.read", "read(%zu) returns %zu, state %s; %zu bytes were read, state %s", n, k, st_name(s.state()), src.pos - before, st_name(src.state()));
				passed.insert(passed.end(), b.begin(), b.begin() + k);
			}
		}
	}
	if (writing) passed = dst.data;
	else MC_CHECK(passed == sub(src.data, 0, src.pos), "hasher.data", "other bytes are handed out than were read");
	expect<A>(h, A::ref(passed.data(), passed.size()), "passed through", passed.size());
	mc::transition(4); mc::state(mc::hmix(passed.size(), total)); mc::outcome(mc::hash(passed.data(), passed.size())); if (mc::deviations() || error) mc::nontrivial();
}
MC_HARNESS(hasher_crc32) { through<Crc>(); }
MC_HARNESS(hasher_sha1) { through<Sha1>(); }

// Hash values: equality is equality of all bytes; they round-trip through a stream and a truncated one is noticed.
template <class V> static void value_ops()
{
	size_t pos = mc::choose(sizeof(V)), bit = mc::choose(256);
	mc::job();
	V a, b; bytes x = content(sizeof(V), 2); memcpy(&a, x.data(), sizeof a); x[pos] ^= (uint8_t)bit; memcpy(&b, x.data(), sizeof b);
	bool same = !bit;
	MC_CHECK((a == b) == same && (b == a) == same && (a != b) == !same && (b != a) == !same, "hashvalue.equal", "values that differ in byte %zu by %02zx compare as %s", pos, bit, a == b ? "equal" : "different");
	memory_file f(64); f << a << b;
	MC_CHECK(f.ok() && f.size() == 2 * sizeof(V), "hashvalue.write", "two values take %llu bytes, state %s", (unsigned long long)f.size(), st_name(f.state()));
	f.seekbeg(0); V c, d; memset(&c, 0x55, sizeof c); memset(&d, 0x55, sizeof d); f >> c >> d;
	MC_CHECK(f.ok() && raw(c) == raw(a) && raw(d) == raw(b), "hashvalue.read", "value does not round-trip");
	for (size_t cut = 0; cut < sizeof(V); cut++) {
		short_source s(sub(raw(a), 0, cut), false); V e; s >> e;
		MC_CHECK(!s.ok(), "hashvalue.truncated", "a value truncated to %zu bytes is read without an error", cut);
		// once there is an error nothing is read or written
		auto st = s.state(); s.data = raw(a); s.pos = 0; V g; memset(&g, 0x55, sizeof g); s >> g;
		MC_CHECK(s.state() == st && s.pos == 0 && raw(g) == bytes(sizeof(V), 0), "hashvalue.sticky", "a value is read from a stream that has failed");
	}
	{
		struct Broken : stdex::stream::basic { size_t writes = 0; size_t write(const void*, size_t) override { ++writes; m_state = state_t::fail; return 0; } } w;
		w << a; MC_CHECK(!w.ok() && w.writes, "hashvalue.write", "a failed write is not noticed"); size_t k = w.writes; w << a; MC_CHECK(!w.ok() && w.writes == k, "hashvalue.sticky", "a value is written to a stream that has failed");
	}
	mc::transition(4); mc::state(mc::hmix(pos, bit)); mc::outcome(mc::hmix(sizeof(V), same)); if (bit) mc::nontrivial();
}
MC_HARNESS(md5_value) { value_ops<stdex::md5_t>(); }
MC_HARNESS(sha1_value) { value_ops<stdex::sha1_t>(); }
MC_HARNESS(sha256_value) { value_ops<stdex::sha256_t>(); }
