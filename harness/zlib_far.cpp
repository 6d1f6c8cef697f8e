// Compression streams around amounts that do not fit zlib's counters: zlib itself is replaced by a stand-in which keeps
// its contract and account of what it is given, so that gigabytes cost nothing and every way to hand over can be explored.
#include <zlib.h>
#include "common.h"
#include <sys/mman.h>
namespace sim {
	static const uint64_t G4 = (uint64_t)1 << 32, G8 = (uint64_t)1 << 33;
	static const uint8_t* from; static uint64_t taken;      // what deflate should be given next, and has been given
	static uint8_t* to; static uint64_t given;              // where inflate should put what follows, and has put
	static uint8_t token; static size_t pending;            // compressed bytes are numbered
	static uint64_t parts[3], left; static size_t at, calls; static bool ended, initialized;
	static void emit(z_stream* z) { while (z->avail_out && pending) { *z->next_out++ = token++; z->avail_out--; pending--; } }
	static int deflate(z_stream* z, int flush)
	{
		if (flush == Z_NO_FLUSH) MC_CHECK(z->next_in == from + taken || !z->avail_in, "zlib.far.input", "zlib is given the wrong part of the data: %lld of %llu", (long long)(z->next_in - from), (unsigned long long)taken);
		else MC_CHECK(!z->avail_in, "zlib.far.input", "the end of the data is not empty");
		if (pending) { emit(z); if (!z->avail_out) return Z_OK; }
		if (flush == Z_FINISH && !ended) { ended = true; pending = 1 + mc::choose_dev(3) * 2; emit(z); return pending || !z->avail_out ? Z_OK : Z_STREAM_END; }
		if (flush == Z_FINISH) return Z_STREAM_END;
		// All input is taken, or the output is full.
		size_t how = z->avail_in && calls++ < 64 ? mc::choose_dev(4) : 0; // data may be handed over in any number of pieces
	 uInt all = z->avail_in, take = how == 1 ? all / 2 : how == 2 ? 0 : all;
		if (how) pending = how == 3 ? 1 : z->avail_out + (how == 1 ? 1 : 0);
		emit(z); if (how == 3 && !z->avail_out) take = all;
		taken += take; z->next_in += take; z->avail_in -= take;
		return Z_OK;
	}
	static int inflate(z_stream* z, int)
	{
		MC_CHECK(z->next_out == to + given, "zlib.far.output", "zlib is told to put what follows to %lld instead of %llu", (long long)(z->next_out - to), (unsigned long long)given);
		MC_CHECK(z->avail_in || left, "zlib.far.output", "zlib is given nothing");
		for (;;) {
			uInt n = (uInt)std::min<uint64_t>(left, z->avail_out); z->next_out += n; z->avail_out -= n; left -= n; given += n;
			if (left) return Z_OK;
			if (ended) return Z_STREAM_END;
			if (!z->avail_in) return Z_OK;
			MC_CHECK(*z->next_in == (uint8_t)(100 + at), "zlib.far.source", "zlib is given %u instead of %zu", *z->next_in, 100 + at);
			z->next_in++; z->avail_in--; if (at < 3) left = parts[at]; else { ended = true; return Z_STREAM_END; } // the fourth byte stands for the checksum
			at++;
		}
	}
}
#undef deflateInit
#undef inflateInit
#define deflateInit(z, level) (sim::initialized = true, Z_OK)
#define inflateInit(z) (sim::initialized = true, Z_OK)
#define deflate(z, f) sim::deflate(z, f)
#define inflate(z, f) sim::inflate(z, f)
#define deflateEnd(z) (sim::initialized = false)
#define inflateEnd(z) (sim::initialized = false)
#include <stdex/zlib.hpp>
using namespace stdex::stream;
using sim::G4; using sim::G8;

static uint8_t* space() // addresses nobody may touch
{
	static uint8_t* p = (uint8_t*)mmap(nullptr, G8 * 4, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) mc::fail("environment", "no address space");
	return p;
}

MC_HARNESS(zlib_write_far)
{
	static const uint64_t ns[] = { 0, 1, 5, G4 - 2, G4 - 1, G4, G4 + 5, G8, G8 + 1 };
	uint64_t n[2] = { mc::pick(ns), mc::pick(ns) }; uInt block = 1 + (uInt)mc::choose(2) * 2; size_t full = mc::choose(4); // the sink is full after some bytes
	mc::job(); mc::set_deviation_bound(mc::thorough() ? 3 : 2);
	struct sink : basic { bytes data; size_t room; size_t write(const void* p, size_t k) override { size_t m = std::min(k, room); room -= m; data.insert(data.end(), (const uint8_t*)p, (const uint8_t*)p + m); m_state = m < k ? state_t::fail : state_t::ok; return m; } } s;
	s.room = full == 3 ? SIZE_MAX : full * 2; sim::taken = 0; sim::token = 1; sim::pending = 0; sim::calls = 0; sim::ended = false; sim::from = space();
	uint64_t total = 0; bool reported = false, threw = false;
	auto w = std::make_unique<stdex::zlib_writer>(s, 9, block);
	for (size_t i = 0; i < 2 && !reported; i++) {
		size_t x = w->write(space() + total, (size_t)n[i]);
		MC_LOG("write(%llx) -> %zx %s", (unsigned long long)n[i], x, st_name(w->state()));
		if (w->ok()) { total += n[i]; MC_CHECK(x == n[i] && sim::taken == total, "zlib.far.write", "write(%llx) returns %zx, %llx bytes compressed so far, expected %llx", (unsigned long long)n[i], x, (unsigned long long)sim::taken, (unsigned long long)total); }
		else { reported = true; MC_CHECK(full != 3 && x <= sim::taken - total && x <= n[i], "zlib.far.write", "write(%llx) returns %zx with state %s", (unsigned long long)n[i], x, st_name(w->state())); }
	}
	stdex::zlib_writer* p = w.release(); try { delete p; } catch (const std::system_error&) { threw = true; }
	for (size_t i = 0; i < s.data.size(); i++) if (!reported) MC_CHECK(s.data[i] == (uint8_t)(i + 1), "zlib.far.written", "compressed byte %zu is %u", i, s.data[i]);
	MC_CHECK(reported || threw || (sim::ended && s.data.size() == (size_t)sim::token - 1 && !sim::pending), "zlib.far.written", "%zu of %d compressed bytes are written", s.data.size(), sim::token - 1 + (int)sim::pending);
	MC_CHECK(full != 3 || !threw, "zlib.far.written", "the destructor throws for no reason");
	MC_CHECK(!sim::initialized, "zlib.far.end", "zlib is not told that the stream ends");
	mc::transition(2); mc::state(mc::hmix(n[0], n[1])); mc::outcome(mc::hmix(s.data.size(), reported * 2 + threw)); if (n[0] + n[1] >= G4) mc::nontrivial();
}

MC_HARNESS(zlib_read_far)
{
	static const uint64_t sizes[] = { 0, 1, 3, G4 - 1, G4, G4 + 7, G8 + 1 }, ns[] = { 1, 4, G4 - 1, G4, G4 + 5, G8 + 9 };
	for (auto& p : sim::parts) p = mc::pick(sizes);
	uInt block = 1 + (uInt)mc::choose(3) * 2; size_t extra = mc::choose(2) * 2, cut = mc::choose(2); mc::job(); mc::set_deviation_bound(1);
	// The source: 100, 101, 102, 103, then something else; it may come short, or end early.
	struct source : basic { size_t at = 0, n; size_t read(void* p, size_t k) override { size_t m = std::min(k, n - at); if (m > 1 && mc::choose_dev(2)) m = 1; for (size_t i = 0; i < m; i++) ((uint8_t*)p)[i] = (uint8_t)(100 + at + i); at += m; m_state = k && !m ? state_t::eof : state_t::ok; return m; } } s;
	s.n = cut == 1 ? 3 : 4 + extra; sim::given = sim::left = 0; sim::at = 0; sim::ended = false; sim::to = space();
	uint64_t e = sim::parts[0] + sim::parts[1] + sim::parts[2], got = 0; size_t steps = 0; uint64_t h = 0;
	{
		stdex::zlib_reader r(s, block);
		for (size_t i = 0;; i++) {
			uint64_t n = i < 2 ? mc::pick(ns) : G8 * 2; if (got + n > G8 * 4) n = G8 * 4 - got;
			sim::to = space() + got; sim::given = 0;
			size_t x = r.read(space() + got, (size_t)n); steps++; h = mc::hmix(h, x);
			MC_LOG("read(%llx) -> %zx %s", (unsigned long long)n, x, st_name(r.state()));
			MC_CHECK(x == std::min(n, e - got) || (cut == 1 && x < e - got), "zlib.far.read", "read(%llx) with %llx left gives %zx", (unsigned long long)n, (unsigned long long)(e - got), x);
			MC_CHECK(sim::given == x, "zlib.far.read", "read(%llx) returns %zx, but %llx bytes were decompressed", (unsigned long long)n, x, (unsigned long long)sim::given);
			got += x;
			if (x) MC_CHECK(r.ok(), "zlib.far.read", "state %s after %zx bytes", st_name(r.state()), x);
			else { MC_CHECK(r.state() == (cut == 1 ? state_t::fail : state_t::eof), "zlib.far.end", "state %s at the end of %s data", st_name(r.state()), cut == 1 ? "cut" : "all"); break; }
		}
	}
	MC_CHECK(!sim::initialized, "zlib.far.end", "zlib is not told that the stream ends");
	mc::transition(steps); mc::state(mc::hmix(e, block)); mc::outcome(h); if (e >= G4) mc::nontrivial();
}
