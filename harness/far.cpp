// The same contracts far out: positions, sizes and amounts around 2^31, 2^32 and beyond. Content is sparse: what is not listed is zero.
#include "common.h"
#include <fcntl.h>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <stdex/idrec.hpp>
using namespace stdex::stream;

namespace {
	static const uint64_t G2 = (uint64_t)1 << 31, G4 = (uint64_t)1 << 32, G8 = (uint64_t)1 << 33, T1 = (uint64_t)1 << 40;

	struct sparse {
		std::map<uint64_t, uint8_t> at; uint64_t size = 0, pos = 0;
		bytes peek(uint64_t p, size_t n) const { bytes r; for (; r.size() < n && p < size; p++) { auto i = at.find(p); r.push_back(i == at.end() ? 0 : i->second); } return r; }
		bytes read(size_t n) { bytes r = peek(pos, n); pos += r.size(); return r; }
		void write(const void* d, size_t n) { for (size_t i = 0; i < n; i++) { uint8_t b = ((const uint8_t*)d)[i]; if (b) at[pos + i] = b; else at.erase(pos + i); } pos += n; if (n) size = std::max(size, pos); }
		void truncate() { at.erase(at.lower_bound(pos), at.end()); size = pos; }
		bool same(const sparse& o) const { return size == o.size && at == o.at; }
		uint64_t h() const { uint64_t x = mc::hmix(size, pos); for (auto& i : at) x = mc::hmix(x, i.first * 256 + i.second); return x; }
		std::string show() const { std::string s = mc::str("%llu bytes:", (unsigned long long)size); uint64_t e = 0; bool f = true; for (auto& i : at) { if (f || i.first != e) s += mc::str(" @%llx ", (unsigned long long)i.first); s += mc::quote(&i.second, 1); e = i.first + 1; f = false; } return s; }
	};
	// Content that differs at every position that differs from another one by a power of two only.
	void prepare(sparse& s, uint64_t B) { s.pos = 0; s.write("0123456789ABCDEF", 16); s.pos = B - 4; s.write("pqrstuvwxyz!", 12); s.pos = 0; }

	struct sparse_file : basic_file {
		sparse s; size_t flushes = 0, closes = 0, most = 0;
		size_t read(void* p, size_t n) override { bytes b = s.read(n); memcpy(p, b.data(), b.size()); m_state = n && b.empty() ? state_t::eof : state_t::ok; return b.size(); }
		size_t write(const void* p, size_t n) override { s.write(p, n); m_state = state_t::ok; return n; }
		void flush() override { ++flushes; m_state = state_t::ok; }
		void close() override { ++closes; m_state = state_t::ok; }
		stdex::stream::fpos_t seek(foff_t o, seek_t how) override { m_state = state_t::ok; return s.pos = (uint64_t)((int64_t)(how == seek_t::beg ? 0 : how == seek_t::cur ? s.pos : s.size) + o); }
		stdex::stream::fpos_t tell() const override { return s.pos; }
		fsize_t size() const override { return s.size; }
		void truncate() override { s.truncate(); m_state = state_t::ok; }
	};

	const char* const names[] = { "read 3", "read 9", "read 1", "write 1", "write 5", "seek B-2", "seek B+1", "seek B+8", "seek 2", "seek cur -3", "seek cur +2^32", "seek cur -2^32", "seek end 0", "seek end -3", "seek end -2^32", "skip 2", "truncate", "flush", "read_remainder" };
	enum { n_names = sizeof names / sizeof *names };

	void step(basic_file& f, sparse& m, uint64_t B, uint8_t& next, size_t op, bool can_shrink)
	{
		const char* name = names[op];
		MC_LOG("%s (pos %llx size %llx)", name, (unsigned long long)m.pos, (unsigned long long)m.size);
		auto rd = [&](size_t n) {
			uint8_t b[16]; memset(b, '#', sizeof b);
			size_t r = f.read(b, n); uint64_t p = m.pos; bytes e = m.read(n);
			MC_CHECK(r == e.size() && !memcmp(b, e.data(), r), "read", "%s at %llx gives %s, expected %s", name, (unsigned long long)p, mc::quote(b, r).c_str(), show(e).c_str());
			MC_CHECK(f.state() == (e.empty() ? state_t::eof : state_t::ok), "read.state", "%s at %llx leaves state %s", name, (unsigned long long)p, st_name(f.state()));
		};
		auto wr = [&](size_t n) {
			bytes b = pattern(n, next); next = (uint8_t)(next + n);
			size_t r = f.write(b.data(), n);
			MC_CHECK(r == n && f.ok(), "write", "%s at %llx writes %zu, state %s", name, (unsigned long long)m.pos, r, st_name(f.state()));
			m.write(b.data(), n);
		};
		auto sk = [&](foff_t o, seek_t how) {
			int64_t t = (int64_t)(how == seek_t::beg ? 0 : how == seek_t::cur ? m.pos : m.size) + o;
			if (t < 0) return;
			auto q = f.seek(o, how); m.pos = (uint64_t)t;
			MC_CHECK(f.ok() && q == m.pos, "seek", "%s gives %llx, expected %llx", name, (unsigned long long)q, (unsigned long long)m.pos);
		};
		switch (op) {
		case 0: rd(3); break; case 1: rd(9); break; case 2: rd(1); break; case 3: wr(1); break; case 4: wr(5); break;
		case 5: sk((foff_t)B - 2, seek_t::beg); break; case 6: sk((foff_t)B + 1, seek_t::beg); break; case 7: sk((foff_t)B + 8, seek_t::beg); break; case 8: sk(2, seek_t::beg); break;
		case 9: sk(-3, seek_t::cur); break; case 10: sk((foff_t)G4, seek_t::cur); break; case 11: sk(-(foff_t)G4, seek_t::cur); break;
		case 12: sk(0, seek_t::end); break; case 13: sk(-3, seek_t::end); break; case 14: sk(-(foff_t)G4, seek_t::end); break;
		case 15: f.skip(2); m.pos += 2; MC_CHECK(f.ok(), "skip", "skip failed"); break;
		case 16: if (!can_shrink && m.pos < B / 2) break; f.truncate(); m.truncate(); MC_CHECK(f.ok(), "truncate", "truncate failed"); break;
		case 17: f.flush(); MC_CHECK(f.ok(), "flush", "flush failed"); break;
		case 18: if (m.pos + 64 < m.size) break; { bytes r = f.read_remainder(), e = m.read(64); MC_CHECK(r == e, "read_remainder", "the remainder is %s, expected %s", show(r).c_str(), show(e).c_str()); } break;
		}
		MC_CHECK(f.tell() == m.pos, "tell", "after %s: tell() is %llx, expected %llx", name, (unsigned long long)f.tell(), (unsigned long long)m.pos);
		MC_CHECK(f.size() == m.size, "size", "after %s: size() is %llx, expected %llx", name, (unsigned long long)f.size(), (unsigned long long)m.size);
		mc::transition(); mc::state(m.h());
	}
	std::string path(const char* n) { const char* d = getenv("VERIF_SCRATCH"); return mc::str("%s/far%d-%s", d ? d : "/tmp", (int)getpid(), n); }
	template <class T> void finish(const T& m, uint8_t next) { mc::outcome(m.h()); if (next != 'a') mc::nontrivial(); }
}

MC_HARNESS(cache_far)
{
	struct setup { uint64_t base; size_t cap, depth; };
	static const setup all[] = { { G4, 4, 4 }, { T1 + 3, 4, 3 }, { G2, 3, 3 }, { G4, 0x1000, 3 }, { G4 + 0x1000, 0x1000, 3 } };
	const setup& u = mc::pick(all); uint64_t B = u.base; size_t cap = u.cap;
	sparse_file src; prepare(src.s, B); src.s.pos = B;
	sparse m = src.s; uint8_t next = 'a';
	{
		cache c(src, cap);
		MC_CHECK(c.tell() == B, "tell", "a new cache is at %llx", (unsigned long long)c.tell());
		for (size_t i = 0; i < u.depth + mc::thorough(); i++) {
			size_t op = mc::choose(n_names); if (!i) mc::job();
			step(c, m, B, next, op, true);
			if (op == 17) MC_CHECK(src.s.same(m), "flush.content", "after flush the file holds %s, expected %s", src.s.show().c_str(), m.show().c_str());
		}
	}
	MC_CHECK(src.s.same(m) && src.s.pos == m.pos, "content", "the file holds %s, expected %s", src.s.show().c_str(), m.show().c_str());
	finish(m, next);
}

MC_HARNESS(file_window_far)
{
	struct range { uint64_t start, len; };
	static const range rs[] = { { G4 - 2, 6 }, { G4 + 1, 5 }, { 2, G4 + 4 }, { G2 - 3, G8 } };
	range w = mc::pick(rs); uint64_t E = w.start + w.len;
	sparse_file src; prepare(src.s, G4); src.s.size = std::max(src.s.size, G8 + G4); src.s.pos = w.start;
	src.s.pos = E - 3; src.s.write("abcde", 5); src.s.pos = w.start;
	sparse before = src.s, m = src.s; uint64_t pos = 0; uint8_t next = 'F';
	file_window f(src, w.start, w.len);
	for (size_t i = 0; i < (mc::thorough() ? 5 : 4); i++) {
		size_t op = mc::choose(13); if (!i) mc::job();
		MC_LOG("operation %zu at %llx of %llx+%llx", op, (unsigned long long)pos, (unsigned long long)w.start, (unsigned long long)w.len);
		auto to = [&](uint64_t t, foff_t o, seek_t how) { if (t > w.len) return; auto q = f.seek(o, how); MC_CHECK(f.ok() && q == t, "seek", "seek(%lld, %d) gives %llx, expected %llx", (long long)o, (int)how, (unsigned long long)q, (unsigned long long)t); pos = t; };
		if (op < 3) {
			size_t n = op == 0 ? 1 : op == 1 ? 3 : 9, e = (size_t)std::min<uint64_t>(n, w.len - pos); uint8_t b[9];
			size_t r = f.read(b, n); bytes x = m.peek(w.start + pos, e);
			MC_CHECK(r == e && !memcmp(b, x.data(), e), "read", "reading %zu at %llx gives %s, expected %s", n, (unsigned long long)pos, mc::quote(b, r).c_str(), show(x).c_str());
			MC_CHECK(f.state() == (e ? state_t::ok : state_t::eof), "read.state", "state %s", st_name(f.state()));
			pos += e;
		}
		else if (op < 5) {
			size_t n = op == 3 ? 1 : 4, e = (size_t)std::min<uint64_t>(n, w.len - pos); bytes b = pattern(n, next); next++;
			size_t r = f.write(b.data(), n);
			MC_CHECK(r == e && f.state() == (e ? state_t::ok : state_t::fail), "write", "writing %zu at %llx writes %zu, state %s", n, (unsigned long long)pos, r, st_name(f.state()));
			m.pos = w.start + pos; m.write(b.data(), e); pos += e;
		}
		else switch (op) {
		case 5: to(0, 0, seek_t::beg); break; case 6: to(w.len, 0, seek_t::end); break; case 7: to(w.len - 2, -2, seek_t::end); break;
		case 8: to(pos + G4, (foff_t)G4, seek_t::cur); break; case 9: to(pos - G4, -(foff_t)G4, seek_t::cur); break; case 10: to(pos - 1, -1, seek_t::cur); break;
		case 11: to(G4 - 1, (foff_t)G4 - 1, seek_t::beg); break;
		case 12: if (pos + 2 <= w.len) { f.skip(2); pos += 2; } break;
		}
		MC_CHECK(f.tell() == pos && f.size() == w.len, "tell", "tell() is %llx, expected %llx; size() is %llx", (unsigned long long)f.tell(), (unsigned long long)pos, (unsigned long long)f.size());
		MC_CHECK(src.s.same(m), "content", "the file holds %s, expected %s", src.s.show().c_str(), m.show().c_str());
		mc::transition(); mc::state(mc::hmix(m.h(), pos));
	}
	mc::outcome(mc::hmix(m.h(), pos)); if (next != 'F') mc::nontrivial();
}

MC_HARNESS(file_far)
{
	static const uint64_t bases[] = { G4, G2 };
	uint64_t B = mc::pick(bases); size_t kind = mc::choose(4); // plain, plain appending, cached (two block sizes)
	mc::job();
	static std::string p; static int fd = -1; static pid_t of;
	if (of != getpid()) { p = path("file"); ::unlink(p.c_str()); fd = ::open(p.c_str(), O_RDWR | O_CREAT, 0600); of = getpid(); ::unlink((p + "x").c_str()); }
	sparse m; prepare(m, B);
	if (ftruncate(fd, 0) || ftruncate(fd, (off_t)m.size) || pwrite(fd, "0123456789ABCDEF", 16, 0) != 16 || pwrite(fd, "pqrstuvwxyz!", 12, (off_t)B - 4) != 12) mc::fail("environment", "cannot prepare a sparse file");
	uint8_t next = 'a';
	int mode = mode_for_reading | mode_for_writing | mode_open_existing | (kind == 1 ? mode_append : 0);
	std::unique_ptr<basic_file> f(kind < 2 ? (basic_file*)new file(p.c_str(), mode) : (basic_file*)new cached_file(p.c_str(), mode, kind == 2 ? 8 : default_cache_size));
	if (kind == 1) m.pos = m.size;
	MC_CHECK(f->ok() && f->tell() == m.pos, "open", "a file of %llx bytes opens at %llx", (unsigned long long)m.size, (unsigned long long)f->tell());
	for (size_t i = 0; i < (mc::thorough() ? 4 : 3); i++) step(*f, m, B, next, mc::choose(n_names), true);
	try { f.reset(); } catch (const std::system_error&) { mc::fail("destroy", "destroying the file throws"); }
	struct stat st; uint8_t b[32];
	bool good = !fstat(fd, &st) && (uint64_t)st.st_size == m.size;
	for (uint64_t at : { (uint64_t)0, B - 16, m.size > 20 ? m.size - 20 : 0, m.pos > 10 ? m.pos - 10 : 0 }) {
		bytes e = m.peek(at, 32); ssize_t n = pread(fd, b, 32, (off_t)at);
		good = good && n == (ssize_t)e.size() && !memcmp(b, e.data(), e.size());
	}
	MC_CHECK(good, "content", "the file on disk is not %s", m.show().c_str());
	finish(m, next);
}

// A buffer of more than 4 GB that belongs to the caller; only few of its pages are ever touched.
MC_HARNESS(memory_file_far)
{
	static const uint64_t bases[] = { G4, G2 };
	uint64_t B = mc::pick(bases);
	enum { room = 0x10000 };
	static uint8_t* mem; static pid_t of;
	if (of != getpid()) { mem = (uint8_t*)mmap(nullptr, G4 + room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); of = getpid(); }
	if (mem == MAP_FAILED) mc::fail("environment", "no address space");
	for (uint64_t at : { (uint64_t)0, G2 - room / 2, G4 - room / 2 }) memset(mem + at, 0, room);
	sparse m; prepare(m, B);
	for (auto& i : m.at) mem[i.first] = i.second;
	uint8_t next = 'a';
	memory_file f(mem, (size_t)m.size, (size_t)B + 16);
	MC_CHECK(f.size() == m.size && f.tell() == 0, "open", "size() is %llx", (unsigned long long)f.size());
	for (size_t i = 0; i < (mc::thorough() ? 5 : 4); i++) {
		size_t op = mc::choose(n_names + 4); if (!i) mc::job();
		uint64_t end = m.pos + (op == 3 ? 1 : op == 4 ? 5 : op >= n_names ? 4 : 0);
		if (end > B + 16 && end != m.pos && op != n_names + 2) {
			bytes b = pattern(8, 'x'); size_t r = op >= n_names ? 0 : f.write(b.data(), op == 3 ? 1 : 5);
			MC_CHECK(!r && (op >= n_names || f.state() == state_t::fail), "write.full", "a write at %llx past the end of a fixed buffer wrote %zu", (unsigned long long)m.pos, r);
			f.seek((foff_t)m.pos);
			continue;
		}
		if (m.pos > m.size + 0x1000 && end != m.pos) continue; // would touch gigabytes
		if (op == 16 && m.pos > m.size) continue; // grows
		if (op < n_names) { step(f, m, B, next, op, false); continue; }
		MC_LOG("typed %zu at %llx", op - n_names, (unsigned long long)m.pos);
		switch (op - n_names) {
		case 0: { uint32_t v = 0x44434241; f.seek((foff_t)m.pos); f.write_data(v); MC_CHECK(f.ok(), "typed", "write_data failed"); m.write("ABCD", 4); break; }
		case 1: if (m.pos + 4 <= B + 16) { f.write_byte('=', 4); MC_CHECK(f.ok(), "typed", "write_byte failed"); m.write("====", 4); } break;
		case 2: { uint32_t v = 1; f.seek((foff_t)m.pos); f.read_data(v); bytes e = m.peek(m.pos, 4); uint32_t x = 0; if (e.size() == 4) memcpy(&x, e.data(), 4);
			MC_CHECK(v == x && f.state() == (e.size() == 4 ? state_t::ok : state_t::eof), "typed", "read_data at %llx gives %08x, expected %08x", (unsigned long long)m.pos, v, x);
			m.pos = e.size() == 4 ? m.pos + 4 : m.size; f.seek((foff_t)m.pos); break; }
		case 3: if (m.pos + 4 <= m.size) { uint32_t v = 0, x; bytes e = m.peek(m.pos, 4); memcpy(&x, e.data(), 4); f.get(m.pos, v); MC_CHECK(v == x, "typed", "get at %llx gives %08x, expected %08x", (unsigned long long)m.pos, v, x); } break;
		}
		MC_CHECK(f.tell() == m.pos && f.size() == m.size, "tell", "at %llx of %llx, expected %llx of %llx", (unsigned long long)f.tell(), (unsigned long long)f.size(), (unsigned long long)m.pos, (unsigned long long)m.size);
		mc::transition(); mc::state(m.h());
	}
	for (uint64_t at : { (uint64_t)0, B - 16, B }) { bytes e = m.peek(at, 24); MC_CHECK(!memcmp(mem + at, e.data(), e.size()), "content", "the buffer at %llx holds %s, expected %s", (unsigned long long)at, mc::quote(mem + at, e.size()).c_str(), show(e).c_str()); }
	finish(m, next);
}

namespace {
	// Counts what goes through without touching it.
	struct phantom : basic {
		uint64_t left = UINT64_MAX, in = 0, out = 0, room = UINT64_MAX; size_t max = SIZE_MAX; const uint8_t* last = nullptr;
		size_t read(void*, size_t n) override { size_t m = (size_t)std::min<uint64_t>(std::min(n, max), left); left -= m; out += m; m_state = n && !m ? state_t::eof : state_t::ok; return m; }
		size_t write(const void* p, size_t n) override { last = (const uint8_t*)p; size_t m = (size_t)std::min<uint64_t>(n, room); room -= m; in += m; m_state = m < n ? state_t::fail : state_t::ok; return m; }
	};
	uint8_t anchor[16];
}

MC_HARNESS(limits_far)
{
	static const uint64_t lims[] = { 5, G4 - 1, G4, G4 + 5, T1, fsize_max / 2, fsize_max / 2 + 1, fsize_max - 1, fsize_max }, ns[] = { 1, 7, G4 - 2, G4, G4 + 5, T1 + 1 };
	uint64_t lim = mc::pick(lims), off = 0; bool w = mc::flip(), win = mc::flip();
	if (win) { static const uint64_t offs[] = { 0, G4, G4 + 3 }; off = mc::pick(offs); }
	mc::job();
	phantom io;
	if (!w && off) io.max = SIZE_MAX;
	limiter l(io, lim, lim); window x(io, off, lim, off, lim);
	basic& s = win ? (basic&)x : (basic&)l;
	uint64_t done = 0, discard = off;
	for (size_t i = 0; i < (win && !w ? 2 : 3); i++) {
		uint64_t n = ns[mc::choose(win && !w ? 5 : 6)], left = lim == fsize_max ? UINT64_MAX : lim - done;
		MC_LOG("%s %llx (%llx left, %llx to discard)", w ? "write" : "read", (unsigned long long)n, (unsigned long long)left, (unsigned long long)discard);
		if (w) {
			uint64_t skip = std::min(n, discard), e = std::min(n - skip, left), before = io.in;
			size_t r = s.write(anchor, (size_t)n);
			MC_CHECK(io.in - before == e && (!e || (uintptr_t)io.last == (uintptr_t)anchor + skip), "write", "writing %llx passes %llx bytes on, expected %llx", (unsigned long long)n, (unsigned long long)(io.in - before), (unsigned long long)e);
			MC_CHECK(r == (win ? n : e), "write.count", "writing %llx returns %llx", (unsigned long long)n, (unsigned long long)r);
			if (!win) MC_CHECK(left ? r < n || s.ok() : s.state() == state_t::fail, "write.state", "state %s", st_name(s.state()));
			discard -= skip; done += e;
		}
		else {
			uint64_t e = std::min(n, left), before = io.out;
			size_t r = s.read(anchor, (size_t)n);
			bool past = win && !left; // a window drops what is behind it
			MC_CHECK(r == e && (past || io.out - before == e + discard), "read", "reading %llx gives %llx and takes %llx bytes, expected %llx and %llx", (unsigned long long)n, (unsigned long long)r, (unsigned long long)(io.out - before), (unsigned long long)e, (unsigned long long)(e + discard));
			MC_CHECK(s.state() == (e ? state_t::ok : state_t::eof), "read.state", "state %s", st_name(s.state()));
			discard = 0; done += e;
		}
		if (!win && lim != fsize_max) MC_CHECK((w ? l.write_limit : l.read_limit) == lim - done, "left", "%llx left, expected %llx", (unsigned long long)(w ? l.write_limit : l.read_limit), (unsigned long long)(lim - done));
		mc::transition(); mc::state(mc::hmix(done, discard));
	}
	mc::outcome(mc::hmix(done, lim)); mc::nontrivial();
}

MC_HARNESS(conveniences_far)
{
	static const uint64_t ns[] = { G2 + 1, G4 - 1, G4, G4 + 3 };
	uint64_t n = mc::pick(ns); size_t what = mc::choose(5); bool ends = mc::flip();
	mc::job();
	MC_LOG("operation %zu of %llx%s", what, (unsigned long long)n, ends ? ", cut" : "");
	phantom a, b;
	if (ends) { a.left = n - 2; b.room = n - 2; }
	uint64_t e = ends ? n - 2 : n;
	switch (what) {
	case 0: a.skip(n); MC_CHECK(a.out == e && a.state() == (ends ? state_t::eof : state_t::ok), "skip", "skipping %llx takes %llx, state %s", (unsigned long long)n, (unsigned long long)a.out, st_name(a.state())); break;
	case 1: b.write_byte('x', n); MC_CHECK(b.in == e && b.state() == (ends ? state_t::fail : state_t::ok), "write_byte", "%llx bytes: %llx written, state %s", (unsigned long long)n, (unsigned long long)b.in, st_name(b.state())); break;
	case 2: { b.room = UINT64_MAX; auto r = b.write_stream(a, n); MC_CHECK(r == e && b.in == e && a.out == e && b.ok(), "write_stream", "copying %llx gives %llx, %llx written, %llx read", (unsigned long long)n, (unsigned long long)r, (unsigned long long)b.in, (unsigned long long)a.out); break; }
	case 3: { a.left = n; auto r = b.write_stream(a); MC_CHECK(r == e && b.in == e && b.state() == (ends ? state_t::fail : state_t::ok), "write_stream", "copying %llx gives %llx, %llx written, state %s", (unsigned long long)n, (unsigned long long)r, (unsigned long long)b.in, st_name(b.state())); break; }
	case 4: {
		a.max = (size_t)G2 - 4096; // as read() of Linux
		size_t r = a.read_array(anchor, 4, (size_t)n);
		uint64_t bytes = ends ? n - 2 : n * 4;
		MC_CHECK(a.out == bytes && r == bytes / 4, "read_array", "reading %llx elements gives %llx, takes %llx", (unsigned long long)n, (unsigned long long)r, (unsigned long long)a.out);
		phantom c; c.room = bytes; r = c.write_array(anchor, 4, (size_t)n);
		MC_CHECK(c.in == bytes && r == bytes / 4, "write_array", "writing %llx elements gives %llx, %llx bytes written", (unsigned long long)n, (unsigned long long)r, (unsigned long long)c.in);
		break;
	}
	}
	mc::transition(); mc::state(mc::hmix(n, what)); mc::outcome(mc::hmix(mc::hmix(n, what), ends)); mc::nontrivial();
}

// Buffers pass what does not fit into them.
MC_HARNESS(buffer_far)
{
	static const uint64_t ns[] = { 3, G2, G4 - 1, G4 + 1, G4 + 17 };
	bool w = mc::flip(); phantom io; if (!w) io.left = G8 + 7;
	mc::job();
	uint64_t total = 0;
	{
		buffer s(io, 16, 16);
		for (size_t i = 0; i < 3; i++) {
			uint64_t n = mc::pick(ns);
			if (w) { size_t r = s.write(anchor, (size_t)n); MC_CHECK(r == n && s.ok(), "write", "writing %llx gives %llx, state %s", (unsigned long long)n, (unsigned long long)r, st_name(s.state())); total += n; }
			else { uint64_t e = std::min(n, G8 + 7 - total); size_t r = s.read(anchor, (size_t)n); MC_CHECK(r == e && s.state() == (e ? state_t::ok : state_t::eof), "read", "reading %llx gives %llx, state %s", (unsigned long long)n, (unsigned long long)r, st_name(s.state())); total += e; }
			mc::transition(); mc::state(total);
		}
	}
	if (w) MC_CHECK(io.in == total, "content", "%llx of %llx bytes written", (unsigned long long)io.in, (unsigned long long)total);
	mc::outcome(total); mc::nontrivial();
}

// Records far out, and records that are that long themselves.
namespace {
	struct chunk { uint64_t n = 0; }; // n bytes, of which only the last is not zero
	basic_file& operator<<(basic_file& f, const chunk& c) { if (c.n) { f.seekcur((foff_t)c.n - 1); f.write("E", 1); } return f; }
	basic& operator<<(basic& f, const chunk&) { return f; }
	template <class S, S A> void records(const std::vector<uint64_t>& lens)
	{
		typedef stdex::idrec::record<chunk, uint32_t, 0x31304241, S, A> R; typedef stdex::idrec::record<chunk, uint32_t, 0x31304242, S, A> Q;
		static const uint64_t bases[] = { 0, G2 - 3, G4 - 9, G4 - 1, G4 + 5, T1 };
		uint64_t base = mc::pick(bases), at[3], len[3], end[3]; bool q[3]; for (size_t i = 0; i < 3; i++) { len[i] = mc::pick(lens); q[i] = mc::flip(); }
		mc::job();
		sparse_file f; f.s.pos = base; sparse e = f.s; e.size = 0; size_t h = 4 + sizeof(S); bool refused = false;
		for (size_t i = 0; i < 3; i++) {
			chunk c; c.n = len[i]; at[i] = e.pos;
			try { if (q[i]) (basic_file&)f << Q(c); else (basic_file&)f << R(c); } catch (const std::invalid_argument&) { refused = true; }
			if (len[i] > std::numeric_limits<S>::max()) { MC_CHECK(refused, "records.size", "a record of %llx bytes is written", (unsigned long long)len[i]); return; }
			MC_CHECK(!refused, "records.size", "a record of %llx bytes is refused", (unsigned long long)len[i]);
			e.write(q[i] ? "BB01" : "AB01", 4); S n = (S)len[i]; e.write(&n, sizeof n); if (len[i]) { e.pos += len[i] - 1; e.write("E", 1); } while ((e.pos - at[i] - h) % A) e.write("", 1);
			end[i] = e.pos;
			MC_CHECK(f.ok() && f.s.pos == e.pos, "records.end", "the record ends at %llx, expected %llx", (unsigned long long)f.s.pos, (unsigned long long)e.pos);
		}
		MC_CHECK(f.s.same(e), "records.content", "the file holds %s, expected %s", f.s.show().c_str(), e.show().c_str());
		for (size_t from = 0; from < 3; from++) for (int which = 0; which < 2; which++) for (size_t lim = 0; lim < 5; lim++) {
			uint64_t limit = lim == 4 ? fpos_max : lim == 3 ? end[2] : at[lim]; size_t hit = from; while (hit < 3 && at[hit] < limit && q[hit] != !!which) hit++;
			bool found = hit < 3 && at[hit] < limit; f.seekbeg((foff_t)at[from]);
			bool r = which ? Q::find((basic_file&)f, limit) : R::find((basic_file&)f, limit);
			MC_CHECK(r == found && (!r || f.s.pos == at[hit] + 4), "records.find", "looking for %d from %llx before %llx gives %d at %llx", which, (unsigned long long)at[from], (unsigned long long)limit, r, (unsigned long long)f.s.pos);
			if (r) { bool i = stdex::idrec::ignore<S, A>((basic&)f); MC_CHECK(i && f.s.pos == end[hit], "records.skip", "skipping ends at %llx, expected %llx", (unsigned long long)f.s.pos, (unsigned long long)end[hit]); }
		}
		mc::transition(3); mc::state(e.h()); mc::outcome(e.h()); mc::nontrivial();
	}
}
MC_HARNESS(records_far) { if (mc::flip()) records<uint32_t, 4>({ 0, 3, G2 + 1, G4 - 4, G4 - 1, G4, G4 + 3 }); else records<uint64_t, 8>({ 0, 7, G4 - 1, G4, G8 + 3 }); }
