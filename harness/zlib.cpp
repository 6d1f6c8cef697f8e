// Compression streams: what goes in comes out, however it is cut up, and damage is noticed.
#include "common.h"
#include <stdex/zlib.hpp>
using namespace stdex::stream;

static bytes payload(size_t kind)
{
	static const size_t n[] = { 0, 1, 2, 5, 24, 60, 300 };
	size_t len = n[kind % 7]; bytes b(len); uint32_t x = 12345;
	for (size_t i = 0; i < len; i++) { x = x * 1103515245 + 12345; b[i] = kind < 7 ? (uint8_t)(x >> 16) : (uint8_t)('a' + i / 9 % 2); } // noise, or runs
	return b;
}
static bytes pack(const bytes& b, int level) // with zlib itself
{
	bytes o(compressBound(b.size())); uLongf n = o.size();
	if (compress2(o.data(), &n, b.data(), b.size(), level) != Z_OK) mc::fail("environment", "compress2");
	o.resize(n); return o;
}
static bool unpack(const bytes& z, bytes& b) { b.resize(1000); uLongf n = b.size(); uLong m = z.size(); int r = uncompress2(b.data(), &n, z.data(), &m); b.resize(r == Z_OK ? n : 0); return r == Z_OK && m == z.size(); }
static const int levels[] = { Z_BEST_COMPRESSION, Z_NO_COMPRESSION, Z_BEST_SPEED, Z_DEFAULT_COMPRESSION };

MC_HARNESS(zlib_write_pieces)
{
	size_t kind = mc::choose(14); int level = mc::pick(levels);
	static const uInt blocks[] = { 1, 2, 3, 7, 64, 0x10000 };
	uInt block = mc::pick(blocks); bool faults = mc::flip();
	mc::job();
	mc::set_deviation_bound(1);
	bytes b = payload(kind);
	short_sink dst(false); bool reported = false, threw = false; size_t n = 0;
	auto z = std::make_unique<stdex::zlib_writer>(dst, level, block);
	dst.faults = faults;
	for (size_t at = 0; at < b.size() && !reported;) {
		size_t left = b.size() - at, k = n < 4 ? (size_t[]){ left, 1, (left + 1) / 2, left - left / 4, 0 }[mc::choose(5)] : left;
		bytes piece(b.begin() + at, b.begin() + at + k); n++;
		size_t x = z->write(piece.data(), k);
		MC_LOG("write(%zu) -> %zu %s", k, x, st_name(z->state()));
		MC_CHECK(x <= k && z->ok() == (x == k && !dst.failed), "zlib.write", "write(%zu) returns %zu, state %s, the sink has %sfailed", k, x, st_name(z->state()), dst.failed ? "" : "not ");
		reported = !z->ok(); at += k; mc::transition();
	}
	// The destructor writes the rest; it throws if it cannot.
	struct drop { void operator()(stdex::zlib_writer* p) const { delete p; } };
	stdex::zlib_writer* p = z.release();
	try { delete p; } catch (const std::system_error&) { threw = true; }
	MC_CHECK(threw || reported || !dst.failed, "zlib.destroy", "the sink failed and nobody was told");
	MC_CHECK(!threw || dst.failed, "zlib.destroy", "the destructor throws for no reason");
	if (!threw && !reported) { bytes back; MC_CHECK(unpack(dst.data, back) && back == b, "zlib.written", "%zu bytes of kind %zu in %zu pieces do not come back", b.size(), kind, n); }
	mc::state(mc::hash(dst.data.data(), dst.data.size())); mc::outcome(mc::hash(dst.data.data(), dst.data.size())); if (n > 1) mc::nontrivial();
}

// Reads everything; returns how it ended.
enum end_t { clean, failed, threw };
static end_t drain(stdex::zlib_reader& r, bytes& got, size_t fixed = 0)
{
	static const size_t sz[] = { 400, 1, 7, 0 };
	for (size_t i = 0;; i++) {
		MC_CHECK(i < 1200, "zlib.read.end", "no end");
		size_t k = fixed ? fixed : i < 3 ? mc::pick(sz) : 50; bytes buf(k); size_t x;
		try { x = r.read(buf.data(), k); } catch (const std::runtime_error&) { return threw; } catch (const std::bad_alloc&) { return threw; }
		MC_LOG("read(%zu) -> %zu %s", k, x, st_name(r.state()));
		MC_CHECK(x <= k, "zlib.read", "read(%zu) returns %zu", k, x);
		got.insert(got.end(), buf.begin(), buf.begin() + x);
		mc::transition();
		if (x || !k) { MC_CHECK(r.ok(), "zlib.read.state", "read(%zu) of %zu bytes leaves state %s", k, x, st_name(r.state())); continue; }
		MC_CHECK(!r.ok(), "zlib.read.state", "nothing was read and the state is ok");
		return r.state() == state_t::eof ? clean : failed;
	}
}
MC_HARNESS(zlib_read_pieces)
{
	size_t kind = mc::choose(14); int level = mc::pick(levels);
	static const uInt blocks[] = { 1, 2, 3, 7, 64, 0x10000 };
	uInt block = mc::pick(blocks); size_t extra = mc::choose(3) * 5;
	mc::job();
	mc::set_deviation_bound(1);
	bytes b = payload(kind), z = pack(b, level), got; size_t len = z.size();
	for (size_t i = 0; i < extra; i++) z.push_back((uint8_t)(0x78 + i)); // something else follows
	short_source src(z);
	stdex::zlib_reader r(src, block);
	end_t e = drain(r, got);
	MC_CHECK(e == clean, "zlib.read.state", "reading %zu compressed bytes%s ends with %s", len, extra ? " followed by others" : "", e == failed ? "a failure" : "an exception");
	MC_CHECK(got == b, "zlib.read.data", "%zu bytes of kind %zu read back as %zu%s", b.size(), kind, got.size(), got.size() == b.size() ? " different ones" : "");
	mc::state(mc::hash(got.data(), got.size())); mc::outcome(mc::hash(z.data(), z.size())); if (b.size()) mc::nontrivial();
}
// Every truncation, every flipped bit: never the clean end of something else.
MC_HARNESS(zlib_damage)
{
	size_t kind = mc::choose(14); int level = mc::pick(levels);
	bytes b = payload(kind), z = pack(b, level), got;
	bool cut = mc::flip(); size_t at = mc::choose(z.size()), bit = cut ? 0 : mc::choose(8); bool error = cut && mc::flip();
	static const uInt blocks[] = { 1, 5, 0x10000 }; uInt block = mc::pick(blocks);
	mc::job();
	short_source src(z, false);
	if (cut) { if (error) src.fail_at = at; else src.data.resize(at); } else src.data[at] ^= (uint8_t)(1 << bit);
	stdex::zlib_reader r(src, block);
	end_t e = drain(r, got, 31);
	if (cut) { MC_CHECK(sub(b, 0, got.size()) == got, "zlib.damage.data", "before the cut other data was read"); MC_CHECK(e != clean, "zlib.truncated", "%zu of %zu compressed bytes end cleanly after %zu of %zu bytes", at, z.size(), got.size(), b.size()); }
	else MC_CHECK(e != clean || got == b, "zlib.damaged", "with bit %zu of byte %zu changed, %zu bytes of other data end cleanly", bit, at, got.size());
	mc::state(mc::hash(got.data(), got.size())); mc::outcome(e * 8 + cut); mc::nontrivial();
}
// Reader and writer back to back.
MC_HARNESS(zlib_roundtrip)
{
	static const uint8_t al[] = { 'a', 'b', 0 };
	size_t n = mc::choose(mc::thorough() ? 10 : 9); bytes b; for (size_t i = 0; i < n; i++) b.push_back(mc::pick(al));
	mc::job();
	int level = mc::pick(levels); uInt block = 1 + (uInt)mc::choose(3);
	memory_file f;
	{ stdex::zlib_writer w(f, level, block); w.write(b.data(), n / 2); w.write(b.data() + n / 2, n - n / 2); MC_CHECK(w.ok(), "zlib.write", "state %s", st_name(w.state())); }
	f.seek(0);
	bytes got; stdex::zlib_reader r(f, block);
	MC_CHECK(drain(r, got, 6) == clean && got == b, "zlib.roundtrip", "%s comes back as %s", show(b).c_str(), show(got).c_str());
	mc::state(mc::hash(b.data(), n)); mc::outcome(mc::hash(b.data(), n)); if (n > 1) mc::nontrivial();
}
