// U10: memory runs out. Streams: what is refused is reported, what was there stays, and everything is released.
#include "oom.h"
#include <algorithm>
#include <chrono>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <system_error>
#include <vector>
#include <fcntl.h>
#include <stdio.h>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>
#define malloc oom::c_malloc
#define realloc oom::c_realloc
#define free oom::c_free
static voidpf z_take(voidpf, uInt n, uInt s) { return oom::take((size_t)n * s); }
static void z_give(voidpf, voidpf p) { oom::give(p); }
static int z_deflateInit(z_stream* z, int level) { z->zalloc = z_take; z->zfree = z_give; return deflateInit(z, level); }
static int z_inflateInit(z_stream* z) { z->zalloc = z_take; z->zfree = z_give; return inflateInit(z); }
#undef deflateInit
#undef inflateInit
#define deflateInit(z, level) z_deflateInit(z, level)
#define inflateInit(z) z_inflateInit(z)
#include "common.h"
#include <stdex/base64.hpp>
#include <stdex/hex.hpp>
#include <stdex/pool.hpp>
#include <stdex/vector_queue.hpp>
#include <stdex/zlib.hpp>
using namespace stdex::stream;

// a source and a sink that allocate nothing
struct tape : basic {
	uint8_t d[4096]; size_t n = 0, at = 0, room = sizeof d;
	tape(const char* s = "") { n = strlen(s); memcpy(d, s, n); m_state = state_t::ok; }
	size_t read(void* p, size_t k) override { k = std::min(k, n - at); memcpy(p, d + at, k); at += k; m_state = k ? state_t::ok : state_t::eof; return k; }
	size_t write(const void* p, size_t k) override { if (n + k > room) { m_state = state_t::fail; return 0; } memcpy(d + n, p, k); n += k; m_state = state_t::ok; return k; }
};
static std::string path(const char* n) { const char* d = getenv("VERIF_SCRATCH"); return mc::str("%s/oom-%s-%d", d ? d : "/dev/shm", n, (int)getpid()); }

static const char abc[] = "abcdefghijklmnopqrstuvwxyz";
struct small { uint8_t d[256]; size_t n = 0, pos = 0; void write(const void* p, size_t k) { if (!k) return; while (n < pos) d[n++] = 0; memcpy(d + pos, p, k); pos += k; n = std::max(n, pos); } };
static bool same(memory_file& f, const small& m) { return f.size() == m.n && (!m.n || !memcmp(f.data(), m.d, m.n)); }

MC_HARNESS(memory_file_oom)
{
	size_t start = mc::choose(4), depth = mc::thorough() ? 3 : 2, ops[3]; for (size_t i = 0; i < depth; i++) ops[i] = mc::choose(19);
	mc::job(); mc::set_deviation_bound(1);
	static std::string file = path("file"); std::string out = path("out");
	if (FILE* f = fopen(file.c_str(), "wb")) { fwrite("loaded", 1, 6, f); fclose(f); }
	uint8_t mine[6] = { 'm', 'i', 'n', 'e', '.', '.' }; // not to be reallocated
	bool refused = false; small m;
	{
		oom::track t;
		{
			memory_file a(start == 1 ? memory_file((size_t)4) : start == 2 ? memory_file(mine, (size_t)4, (size_t)6) : start == 3 ? memory_file(oom::c_malloc(5), (size_t)0, (size_t)5, true) : memory_file());
			if (start == 2) { memcpy(m.d, "mine", 4); m.n = 4; }
			if (start == 3) { a.write("01234", 5); m.write("01234", 5); }
			for (size_t i = 0; i < depth && !refused; i++) {
				memory_file b((size_t)3); b.write("xyz", 3);
				small was = m; bool threw = false; size_t x = 0, ex = 0; bool counted = false;
				tape src("stream"); state_t before = a.state();
				MC_LOG("operation %zu at %zu of %zu", ops[i], m.pos, m.n);
				{
					oom::arm arm;
					try {
						switch (ops[i]) {
						case 0: x = a.write(abc, 3); ex = 3; counted = true; m.write(abc, 3); break;
						case 1: a.write_byte('-', 5); m.write("-----", 5); break;
						case 2: x = a.write_stream(src); ex = 6; counted = true; m.write("stream", 6); break;
						case 3: x = a.write_stream(src, 4); ex = 4; counted = true; m.write("stre", 4); break;
						case 4: a << (uint32_t)0x64636261; if (before == state_t::ok) m.write("abcd", 4); break;
						case 5: a << "st"; if (before == state_t::ok) m.write("\2\0\0\0st", 6); break;
						case 6: a << std::string("cpp"); if (before == state_t::ok) m.write("\3\0\0\0cpp", 7); break;
						case 7: a.seek(2, seek_t::end); m.pos = m.n + 2; break;
						case 8: a.seekbeg(1); m.pos = 1; break;
						case 9: a.truncate(); while (m.n < m.pos) m.d[m.n++] = 0; m.n = m.pos; break;
						case 10: a.reserve(64); break;
						case 11: a.reserve(m.n, true); break;
						case 12: a = b; m = small(); m.write("xyz", 3); break;
						case 13: b = a; a = std::move(b); break;
						case 14: { memory_file c(a); a = c; break; }
						case 15: a.close(); m = small(); break;
						case 16: a.load(file, mode_for_reading); m = small(); m.write("loaded", 6); m.pos = 0; break;
						case 17: a.save(out, mode_for_writing | mode_create); break;
						case 18: { memory_file c((size_t)16); c = std::move(a); c.write(abc, 1); m.write(abc, 1); a = std::move(c); break; }
						}
					} catch (const std::bad_alloc&) { threw = true; }
					refused = oom::g_refused;
				}
				if (!refused) {
					MC_CHECK(!threw, "memory_file.throws", "operation %zu throws although memory was there", ops[i]);
					if (start == 2 && a.state() == state_t::fail) { refused = true; m = was; if (ops[i] == 16 && a.size() <= 6) { memcpy(m.d, "loaded", 6); m.n = a.size(); } m.pos = a.tell(); break; } // what is not to be reallocated is full
					MC_CHECK(!counted || x == ex, "memory_file.count", "operation %zu writes %zu, not %zu", ops[i], x, ex);
				}
				else {
					bool kept = same(a, was) && a.tell() == was.pos, done = same(a, m) && a.tell() == m.pos;
					MC_CHECK(threw || a.state() == state_t::fail || done, "memory_file.reported", "operation %zu got no memory, and state is %s", ops[i], st_name(a.state()));
					if (ops[i] == 18) { if (!same(a, was)) { a = memory_file(); was = small(); } kept = true; was.pos = a.tell(); } // the content was in the file that was refused
					if (ops[i] == 16 && !done && !kept) { kept = a.size() <= 6; was.n = a.size(); memcpy(was.d, "loaded", 6); kept = kept && same(a, was); was.pos = a.tell(); } // loading replaces what was there
					MC_CHECK(kept || done, "memory_file.kept", "operation %zu got no memory; the file holds %zu bytes at %llu, held %zu bytes at %zu", ops[i], (size_t)a.size(), (unsigned long long)a.tell(), was.n, was.pos);
					if (!done) { MC_CHECK(!counted || x == 0, "memory_file.count", "operation %zu got no memory and writes %zu", ops[i], x); m = was; }
				}
				MC_CHECK(same(a, m) && a.tell() == m.pos, "memory_file.content", "operation %zu leaves %s at %llu, expected %s at %zu", ops[i], mc::quote(a.data(), a.size()).c_str(), (unsigned long long)a.tell(), mc::quote(m.d, m.n).c_str(), m.pos);
			}
			// the file still works
			if (start != 2 || !refused) {
				a.seek(0, seek_t::end); m.pos = m.n; size_t x = a.write("end", 3); 
				if (x || start != 2) { m.write("end", 3); MC_CHECK(x == 3 && a.ok() && same(a, m), "memory_file.works", "writing gives %zu, state %s, %zu bytes", x, st_name(a.state()), (size_t)a.size()); }
			}
			a.seekbeg(0); uint8_t r[256]; size_t x = a.read(r, sizeof r); MC_CHECK(x == m.n && !memcmp(r, m.d, x), "memory_file.works", "reads %zu bytes of %zu", x, m.n);
		}
		t.done("memory_file.leak", "a memory file");
	}
	::unlink(out.c_str());
	mc::transition(depth); uint64_t h = mc::hash(m.d, m.n); mc::state(mc::hmix(h, m.pos)); mc::outcome(h); if (refused) mc::nontrivial();
}

MC_HARNESS(fifo_oom)
{
	size_t depth = mc::thorough() ? 6 : 5, ops[6]; for (size_t i = 0; i < depth; i++) ops[i] = mc::choose(6);
	mc::job(); mc::set_deviation_bound(2);
	static const size_t n[] = { 1, 3, 0 }; char all[64]; size_t in = 0, out = 0, refusals = 0;
	{
		oom::track t;
		{
			fifo f;
			for (size_t i = 0; i < depth; i++) {
				if (ops[i] < 3) {
					size_t k = n[ops[i]], x; bool refused, threw = false;
					{ oom::arm arm; try { x = f.write(abc + in, k); } catch (const std::bad_alloc&) { threw = true; } refused = oom::g_refused; }
					MC_CHECK(!threw, "fifo.throws", "write() throws"); refusals += refused;
					MC_CHECK(refused ? x == 0 && f.state() == state_t::fail : x == k && f.ok(), "fifo.write", "write(%zu) %sgives %zu, state %s", k, refused ? "without memory " : "", x, st_name(f.state()));
					if (!refused) { memcpy(all + in, abc + in, k); in += k; }
				}
				else if (ops[i] < 5) {
					char b[8]; size_t k = ops[i] == 3 ? 1 : 5, x = f.read(b, k), e = std::min(k, in - out);
					MC_CHECK(x == e && !memcmp(b, all + out, e), "fifo.read", "read(%zu) gives %s, expected %s", k, mc::quote(b, x).c_str(), mc::quote(all + out, e).c_str()); out += e;
				}
				else { f.close(); in = out = 0; }
				MC_CHECK(f.size() == in - out, "fifo.size", "%zu bytes pending, expected %zu", f.size(), in - out);
			}
		}
		t.done("fifo.leak", "a pipe");
	}
	mc::transition(depth); mc::state(mc::hash(all + out, in - out)); mc::outcome(in * 64 + out); if (refusals) mc::nontrivial();
}

// Objects that need memory to be made: without it nothing is made, nothing stays, and the stream below is untouched.
MC_HARNESS(makers_oom)
{
	static const char* const what[] = { "buffer", "cache", "cached_file", "zlib_writer", "zlib_reader", "base64_writer", "base64_reader", "vector_queue", "copy of vector_queue", "copy assignment of vector_queue", "buffered_sys", "zlib_writer on a full disk", "zlib_reader of garbage" };
	size_t kind = mc::choose(sizeof what / sizeof *what), block = mc::choose(3); mc::job(); mc::set_deviation_bound(1);
	static const size_t blocks[] = { 1, 7, 100 }; size_t z = blocks[block];
	static std::string file = path("below"); if (FILE* f = fopen(file.c_str(), "wb")) { fwrite("below", 1, 5, f); fclose(f); }
	int before = ::open("/dev/null", O_RDONLY); ::close(before);
	bool refused = false, threw = false; tape below("some text to be read"), sink; uint8_t zipped[128]; uLongf zn = sizeof zipped; compress(zipped, &zn, (const Bytef*)"some text to be read", 20);
	if (kind == 4) { memcpy(below.d, zipped, zn); below.n = zn; }
	if (kind == 6) { strcpy((char*)below.d, "c29tZSB0ZXh0IHRvIGJlIHJlYWQ="); below.n = strlen((char*)below.d); }
	std::string got; got.reserve(256); size_t n = 0; char b[64]; int same_fd = -1; std::string qs; qs.reserve(64);
	ref_file under(pattern(6));
	{
		oom::track t;
		{
			stdex::vector_queue<std::string> q(3), q2(2); q.push_back("the first string, too long to be kept within"); q.push_back("the second string, too long to be kept within"); q2.push_back("the only string, too long to be kept within as well");
			oom::arm arm;
			try {
				switch (kind) {
				case 0: { stdex::stream::buffer x(below, z, z); n = x.read(b, 20); break; }
				case 1: { cache x(under, z); { oom::pause p; n = x.read(b, 6); x.seekbeg(0); x.write("W", 1); } break; }
				case 2: { cached_file x(file.c_str(), mode_for_reading | mode_for_writing, z); n = x.read(b, 5); x.seekbeg(0); x.write("W", 1); break; }
				case 3: { stdex::zlib_writer x(sink, Z_BEST_COMPRESSION, (uInt)z); n = x.write("some text", 9); break; }
				case 4: { stdex::zlib_reader x(below, (uInt)z); while (size_t k = x.read(b + n, 20 - n)) n += k; break; }
				case 5: { stdex::base64_writer x(sink, z); n = x.write("some text", 9); x.flush(); break; }
				case 6: { stdex::base64_reader x(below); n = x.read(b, 20); break; }
				case 7: { stdex::vector_queue<std::string> x(z); x.push_back("another string, too long to be kept within"); x.push_front(std::string("yet another string, too long to be kept within")); n = x.size(); break; }
				case 8: { stdex::vector_queue<std::string> x(q); n = x.size(); break; }
				case 9: q2 = q; n = q2.size(); break;
				case 11: { sink.room = 0; bool full = false; try { stdex::zlib_writer x(sink, Z_BEST_COMPRESSION, (uInt)z); n = x.write("some text", 9); } catch (const std::system_error&) { full = true; } { oom::pause p; MC_CHECK(full, "maker.full", "a compressed stream that could not be written is not reported"); } break; }
				case 12: { try { stdex::zlib_reader x(under, (uInt)z); n = x.read(b, 20); } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { n = 77; } break; }
				case 10: { buffered_sys x(::open(file.c_str(), O_RDONLY), z, z); n = x.read(b, 5); break; }
				}
			} catch (const std::bad_alloc&) { threw = true; }
			catch (const std::exception& e) { oom::pause p; MC_CHECK(oom::g_refused && (kind == 3 || kind == 4), "maker.throws", "%s throws %s", what[kind], e.what()); threw = true; } // zlib says what happened
			refused = oom::g_refused;
			{
				oom::pause p;
				if (kind == 9) { MC_CHECK(threw ? q2.size() == 1 && q2.front() == "the only string, too long to be kept within as well" : q2.size() == 2 && q2.front() == q.front(), "maker.kept", "a queue assigned to holds %zu elements", q2.size()); }
				MC_CHECK(q.size() == 2 && q.front() == "the first string, too long to be kept within", "maker.kept", "the queue copied changes");
			}
		}
		t.done("maker.leak", what[kind]);
	}
	const size_t en[] = { 20, 6, 5, 9, 20, 9, 20, 0, 2, 2, 5, n, 77 };
	same_fd = ::open("/dev/null", O_RDONLY); ::close(same_fd);
	MC_CHECK(kind == 10 ? threw || same_fd == before : same_fd == before, "maker.handle", "%s%s leaves a file open", what[kind], refused ? " that got no memory" : "");
	if (kind == 10 && same_fd != before) ::close(before);
	MC_CHECK(refused || !threw, "maker.throws", "%s throws although memory was there", what[kind]);
	MC_CHECK(!refused || threw || kind >= 3, "maker.reported", "%s got no memory and says nothing", what[kind]);
	if (!refused) { size_t e = kind == 7 ? std::min<size_t>(2, z) : en[kind]; MC_CHECK(n == e, "maker.result", "%s gives %zu, expected %zu", what[kind], n, e); }
	if (kind == 1 || kind == 2) {
		bytes now = under.data; if (kind == 2) { now.resize(5); FILE* f = fopen(file.c_str(), "rb"); now.resize(fread(now.data(), 1, 5, f)); fclose(f); }
		bool changed = !now.empty() && now[0] == 'W';
		MC_CHECK(changed == !threw && now.size() == (kind == 1 ? 6 : 5), "maker.content", "%s: the file below is %schanged", what[kind], changed ? "" : "not ");
	}
	mc::transition(); mc::state(mc::hmix(kind, n)); mc::outcome(n * 4 + refused * 2 + threw); if (refused) mc::nontrivial();
}

// An element that needs memory to be copied.
struct elem {
	int* p = nullptr;
	elem() {}
	explicit elem(int v) : p(new int(v)) {}
	elem(const elem& o) : p(o.p ? new int(*o.p) : nullptr) {}
	elem(elem&& o) noexcept : p(o.p) { o.p = nullptr; }
	~elem() { delete p; }
	elem& operator=(const elem& o) { int* q = o.p ? new int(*o.p) : nullptr; delete p; p = q; return *this; }
	elem& operator=(elem&& o) noexcept { std::swap(p, o.p); return *this; }
	int v() const { return p ? *p : 0; }
};

// A queue whose element could not be copied is as it was.
MC_HARNESS(queue_oom)
{
	size_t cap = 1 + mc::choose(3), depth = mc::thorough() ? 5 : 4, ops[6]; for (size_t i = 0; i < depth; i++) ops[i] = mc::choose(8);
	mc::job(); mc::set_deviation_bound(2);
	static const char* const name[] = { "push_back", "push_front", "push_back, moved", "push_front, moved", "pop_back", "pop_front", "copying", "assigning" };
	int m[8]; size_t n = 0, refusals = 0; bool any = false;
	{
		oom::track t;
		{
			stdex::vector_queue<elem> q(cap), other(2);
			for (size_t i = 0; i < depth; i++) {
				bool threw = false, refused; int v = (int)i + 1;
				{
					std::unique_ptr<elem> e(new elem(v)); oom::arm arm;
					try {
						switch (ops[i]) {
						case 0: q.push_back(*e); break;
						case 1: q.push_front(*e); break;
						case 2: q.push_back(std::move(*e)); break;
						case 3: q.push_front(std::move(*e)); break;
						case 4: if (n) q.pop_back(); break;
						case 5: if (n) q.pop_front(); break;
						case 6: { stdex::vector_queue<elem> c(q); oom::pause p; MC_CHECK(c.size() == n && c.capacity() == cap, "queue.copy", "a copy holds %zu of %zu", c.size(), n); for (size_t k = 0; k < n; k++) MC_CHECK(c[k].v() == m[k], "queue.copy", "a copy differs"); break; }
						case 7: other = q; break;
						}
					} catch (const std::bad_alloc&) { threw = true; }
					refused = oom::g_refused;
				}
				MC_CHECK(threw == refused, "queue.reported", "%s %s", name[ops[i]], threw ? "throws although memory was there" : "without memory says nothing"); refusals += refused; any |= refused;
				if (!threw) switch (ops[i]) {
				case 0: case 2: if (n == cap) { memmove(m, m + 1, (n - 1) * sizeof *m); n--; } m[n++] = v; break;
				case 1: case 3: if (n == cap) n--; memmove(m + 1, m, n * sizeof *m); m[0] = v; n++; break;
				case 4: if (n) n--; break;
				case 5: if (n) { memmove(m, m + 1, --n * sizeof *m); } break;
				case 7: MC_CHECK(other.size() == n && other.capacity() == cap, "queue.copy", "a queue assigned to holds %zu of %zu", other.size(), n); for (size_t k = 0; k < n; k++) MC_CHECK(other[k].v() == m[k], "queue.copy", "a queue assigned to differs"); break;
				}
				MC_CHECK(q.size() == n && q.capacity() == cap, "queue.kept", "%s%s: the queue holds %zu elements, expected %zu", name[ops[i]], threw ? " without memory" : "", q.size(), n);
				for (size_t k = 0; k < n; k++) MC_CHECK(q[k].v() == m[k], "queue.kept", "%s%s: element %zu is %d, expected %d", name[ops[i]], threw ? " without memory" : "", k, q[k].v(), m[k]);
				if (n) MC_CHECK(q.front().v() == m[0] && q.back().v() == m[n - 1], "queue.kept", "front() or back() is wrong");
			}
		}
		t.done("queue.leak", "a queue");
	}
	mc::transition(depth); mc::state(mc::hash(m, n * sizeof *m)); mc::outcome(n * 4 + refusals); if (any) mc::nontrivial();
}

// A pool that could not keep an item leaves it with its owner; no item is ever lost or given out twice.
MC_HARNESS(pool_oom)
{
	size_t depth = mc::thorough() ? 6 : 5, ops[6]; for (size_t i = 0; i < depth; i++) ops[i] = mc::choose(5);
	mc::job(); mc::set_deviation_bound(2);
	unsigned in[2] = {}; size_t refusals = 0; // which items each node holds
	{
		oom::track t;
		{
			stdex::pool<elem> p;
			for (size_t i = 0; i < depth; i++) {
				int v = (int)i + 1, node = ops[i] & 1; bool threw = false, refused; elem e, got; if (ops[i] < 2) e = elem(v);
				{
					oom::arm arm;
					try { if (ops[i] < 2) p.push(std::move(e), node); else if (ops[i] < 4) got = p.pop(node); else p.clear(); } catch (const std::bad_alloc&) { threw = true; }
					refused = oom::g_refused;
				}
				MC_CHECK(threw == refused, "pool.reported", "%s %s", ops[i] < 2 ? "push" : ops[i] < 4 ? "pop" : "clear", threw ? "throws although memory was there" : "without memory says nothing"); refusals += refused;
				if (ops[i] < 2) { if (threw) MC_CHECK(e.v() == v, "pool.lost", "an item that could not be kept is lost"); else in[node] |= 1u << v; }
				else if (ops[i] < 4) {
					if (threw) MC_CHECK(!in[node], "pool.pop", "pop() of what is there needs memory");
					else if (in[node]) { MC_CHECK(got.p && in[node] >> got.v() & 1, "pool.pop", "pop() gives %d", got.v()); in[node] &= ~(1u << got.v()); }
					else MC_CHECK(!got.p, "pool.pop", "pop() of an empty node gives %d", got.v());
				}
				else in[0] = in[1] = 0;
			}
			for (int node = 0; node < 2; node++) while (in[node]) { elem got = p.pop(node); MC_CHECK(got.p && in[node] >> got.v() & 1, "pool.lost", "an item is lost"); in[node] &= ~(1u << got.v()); }
		}
		t.done("pool.leak", "a pool");
	}
	mc::transition(depth); mc::state(in[0] * 256 + in[1]); mc::outcome(refusals); if (refusals) mc::nontrivial();
}
