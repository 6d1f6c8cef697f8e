#include "common.h"
using namespace stdex::stream;

// Exact-size heap destination, so that the address sanitizer sees any overrun.
struct dest { size_t n; uint8_t* p; dest(size_t _n) : n(_n), p(new uint8_t[_n]) { memset(p, 0xEE, n); } ~dest() { delete[] p; } };

namespace {
	struct World {
		std::unique_ptr<memory_file> f; model_file m; bool managed = true; size_t limit = SIZE_MAX; uint8_t next = 'a';
		bool ok = true; // expected state is ok
	};

	bytes content(const memory_file& f) { return f.size() ? bytes((const uint8_t*)f.data(), (const uint8_t*)f.data() + f.size()) : bytes(); }

	void verify(World& w, const char* op)
	{
		MC_CHECK(w.f->size() == w.m.data.size(), "size", "after %s: size() is %llu, expected %zu", op, (unsigned long long)w.f->size(), w.m.data.size());
		MC_CHECK(w.f->tell() == w.m.pos, "position", "after %s: tell() is %llu, expected %llu", op, (unsigned long long)w.f->tell(), (unsigned long long)w.m.pos);
		bytes c = content(*w.f);
		MC_CHECK(c == w.m.data, "content", "after %s: content is %s, expected %s", op, show(c).c_str(), show(w.m.data).c_str());
		mc::state(mc::hmix(w.m.h(), (int)w.f->state()));
		mc::transition();
	}
	void expect_state(World& w, state_t s, const char* op)
	{
		MC_CHECK(w.f->state() == s, "state", "after %s: state is %s, expected %s", op, st_name(w.f->state()), st_name(s));
		w.ok = s == state_t::ok;
	}

	void op_write(World& w, size_t n, const char* name, bool stream_write = true)
	{
		bytes b = pattern(n, w.next); w.next = (uint8_t)(w.next + 3);
		MC_LOG("%s %s", name, show(b).c_str());
		bool fits = w.m.pos + n <= w.limit;
		size_t r = w.f->write(b.data(), n);
		if (fits) {
			MC_CHECK(r == n, "write.count", "write of %zu bytes returned %zu", n, r);
			w.m.write(b); expect_state(w, state_t::ok, name);
		}
		else {
			MC_CHECK(r == 0, "write.count", "write of %zu bytes beyond a fixed buffer returned %zu", n, r);
			expect_state(w, state_t::fail, name);
		}
	}

	void step(World& w, size_t depth_left)
	{
		static const char* names[] = {
			"write 1", "write 3", "read 0", "read 1", "read 2", "read 9",
			"seek beg 0", "seek beg 1", "seek beg 5", "seek cur -1", "seek cur 2", "seek end 0", "seek end -2", "seek end 3",
			"truncate", "write_byte x2", "write_byte x40", "put u16", "get u16", "put str", "get str",
			"write_stream 2", "write_stream all", "skip 1", "read_remainder", "read_byte", "close",
			"reserve tight", "move", "copy", "write_array u32", "readln",
		};
		size_t op = mc::choose(sizeof names / sizeof *names);
		const char* name = names[op];
		memory_file& f = *w.f; model_file& m = w.m;
		MC_LOG("op %s (pos %llu size %zu)", name, (unsigned long long)m.pos, m.data.size());
		auto rd = [&](size_t n) {
			dest d(n);
			size_t r = f.read(d.p, n);
			bytes e = m.read(n);
			MC_CHECK(r == e.size() && bytes(d.p, d.p + r) == e, "read.data", "%s returned %zu bytes %s, expected %s", name, r, mc::quote(d.p, std::min(r, n)).c_str(), show(e).c_str());
			expect_state(w, n && e.empty() ? state_t::eof : state_t::ok, name);
		};
		auto sk = [&](int64_t off, seek_t how) {
			int64_t base = how == seek_t::beg ? 0 : how == seek_t::cur ? (int64_t)m.pos : (int64_t)m.data.size();
			bool threw = false; uint64_t r = 0;
			try { r = f.seek(off, how); } catch (const std::invalid_argument&) { threw = true; }
			MC_CHECK(threw == (base + off < 0), "seek.negative", "%s: seeking to %lld %s", name, (long long)(base + off), threw ? "threw" : "did not throw");
			if (!threw) { m.pos = (uint64_t)(base + off); MC_CHECK(r == m.pos, "seek.result", "%s returned %llu, expected %llu", name, (unsigned long long)r, (unsigned long long)m.pos); expect_state(w, state_t::ok, name); }
		};
		switch (op) {
		case 0: op_write(w, 1, name); break;
		case 1: op_write(w, 3, name); break;
		case 2: rd(0); break;
		case 3: rd(1); break;
		case 4: rd(2); break;
		case 5: rd(9); break;
		case 6: sk(0, seek_t::beg); break;
		case 7: sk(1, seek_t::beg); break;
		case 8: sk(5, seek_t::beg); break;
		case 9: sk(-1, seek_t::cur); break;
		case 10: sk(2, seek_t::cur); break;
		case 11: sk(0, seek_t::end); break;
		case 12: sk(-2, seek_t::end); break;
		case 13: sk(3, seek_t::end); break;
		case 14:
			f.truncate();
			if (m.pos <= w.limit) { m.data.resize(m.pos); expect_state(w, state_t::ok, name); }
			else expect_state(w, state_t::fail, name);
			break;
		case 15: case 16: {
			size_t n = op == 15 ? 2 : 40; uint8_t c = w.next++;
			f.write_byte(c, n);
			if (m.pos + n <= w.limit) { m.write(bytes(n, c)); expect_state(w, state_t::ok, name); }
			else expect_state(w, state_t::fail, name);
			break;
		}
		case 17: {
			uint16_t v = 0xBEEF; bool was = !CHECK_STREAM_STATE || w.ok;
			f << v;
			if (!was) { expect_state(w, f.state(), name); w.ok = false; break; }
			if (m.pos + 2 <= w.limit) { uint8_t b[] = { 0xEF, 0xBE }; m.write(b, 2); expect_state(w, state_t::ok, name); }
			else expect_state(w, state_t::fail, name);
			break;
		}
		case 18: {
			uint16_t v = 0x5555; bool was = !CHECK_STREAM_STATE || w.ok; state_t s0 = f.state();
			f >> v;
			if (!was) { MC_CHECK(v == 0 && f.state() == s0, "chain", "a typed read on a stream that is not ok must yield 0 and keep the state"); break; }
			if (m.pos + 2 <= m.data.size()) {
				bytes e = m.read(2); uint16_t x = (uint16_t)(e[0] | e[1] << 8);
				MC_CHECK(v == x, "typed.value", "typed read gave %04x, expected %04x", v, x);
				expect_state(w, state_t::ok, name);
			}
			else {
				MC_CHECK(v == 0, "typed.value", "typed read at end of file gave %04x", v);
				expect_state(w, state_t::eof, name);
				uint64_t t = f.tell(); MC_CHECK(t == m.data.size() || t == m.pos, "position", "typed read at end moved to %llu", (unsigned long long)t);
				m.pos = t;
			}
			break;
		}
		case 19: {
			std::string s = "xy"; bool was = !CHECK_STREAM_STATE || w.ok;
			if (mc::flip()) f << s; else f << s.c_str();
			if (!was) break;
			if (m.pos + 6 <= w.limit) { m.write("\2\0\0\0xy", 6); expect_state(w, state_t::ok, name); }
			else expect_state(w, state_t::fail, name);
			break;
		}
		case 20: {
			std::string s = "stale"; bool was = !CHECK_STREAM_STATE || w.ok; state_t s0 = f.state();
			f >> s;
			if (!was) { MC_CHECK(s.empty() && f.state() == s0, "chain", "a string read on a stream that is not ok must yield an empty string and keep the state"); break; }
			uint64_t p0 = m.pos; bytes l = m.read(4); size_t n = 0;
			if (l.size() == 4) {
				n = (size_t)l[0] | (size_t)l[1] << 8 | (size_t)l[2] << 16 | (size_t)l[3] << 24;
				bytes e = m.read(n);
				MC_CHECK(bytes(s.begin(), s.end()) == e, "str.value", "string read gave %s, expected %s", show(s).c_str(), show(e).c_str());
				expect_state(w, e.size() == n ? state_t::ok : state_t::eof, name);
			}
			else {
				MC_CHECK(s.empty(), "str.value", "string read at end of file gave %s", show(s).c_str());
				expect_state(w, state_t::eof, name);
				uint64_t t = f.tell(); MC_CHECK(t == m.data.size() || t == p0, "position", "string read at end moved to %llu", (unsigned long long)t);
				m.pos = t;
			}
			break;
		}
		case 21: case 22: {
			size_t amount = op == 21 ? 2 : SIZE_MAX;
			size_t have = op == 21 && mc::choose(2) ? 1 : 4;
			mc::set_deviation_bound(1);
			short_source src(pattern(have, w.next)); w.next += 5;
			size_t n = std::min(amount, have);
			size_t r = f.write_stream(src, amount);
			if (w.managed) {
				m.write(sub(src.data, 0, n));
				MC_CHECK(r == n, "write_stream.count", "%s copied %zu, expected %zu", name, r, n);
				expect_state(w, state_t::ok, name);
			}
			else {
				// A fixed buffer may refuse the block it would have to reserve: nothing is copied, the state is fail.
				if (f.ok()) { m.write(sub(src.data, 0, n)); MC_CHECK(r == n, "write_stream.count", "%s copied %zu, expected %zu", name, r, n); }
				else { MC_CHECK(r == 0, "write_stream.count", "%s failed but copied %zu", name, r); expect_state(w, state_t::fail, name); }
			}
			break;
		}
		case 23: f.skip(1); m.pos += 1; expect_state(w, state_t::ok, name); break;
		case 24: {
			if (m.pos > m.data.size()) break; // undefined when past the end
			std::vector<uint8_t> r = f.read_remainder(); bytes e = m.read(SIZE_MAX);
			MC_CHECK(r == e, "read_remainder", "read_remainder gave %s, expected %s", show(r).c_str(), show(e).c_str());
			w.ok = f.ok();
			break;
		}
		case 25: {
			bool threw = false; uint8_t b = 0; bytes e = m.read(1);
			try { b = f.read_byte(); } catch (const std::system_error&) { threw = true; }
			MC_CHECK(threw == e.empty() && (threw || b == e[0]), "read_byte", "read_byte %s %02x, expected %s", threw ? "threw" : "gave", b, show(e).c_str());
			w.ok = f.ok();
			break;
		}
		case 26: f.close(); m = model_file(); w.managed = true; w.limit = SIZE_MAX; expect_state(w, state_t::ok, name); break;
		case 27: {
			size_t req = m.data.size();
			f.reserve(req, true);
			w.ok = f.ok();
			if (w.managed) expect_state(w, state_t::ok, name);
			break;
		}
		case 28: {
			std::unique_ptr<memory_file> g;
			if (mc::flip()) g.reset(new memory_file(std::move(f)));
			else { g.reset(new memory_file()); *g << (uint32_t)7; *g = std::move(f); }
			MC_CHECK(f.size() == 0 && f.tell() == 0, "move.source", "a moved-from file is not empty");
			{ // Nothing of the original may remain: what is written to it now must not reach the new owner.
				uint8_t z = 0x5a; size_t r = f.write(&z, 1);
				MC_CHECK(r == 1 && f.ok() && f.size() == 1 && f.tell() == 1, "move.source", "a moved-from file takes %zu byte, its size is %llu", r, (unsigned long long)f.size());
			}
			w.f = std::move(g); w.ok = w.f->ok();
			break;
		}
		case 29: {
			std::unique_ptr<memory_file> g;
			bool cc = mc::flip();
			try {
				if (cc) g.reset(new memory_file(f));
				else { g.reset(new memory_file()); *g << (uint32_t)7; *g = f; }
			}
			catch (const std::bad_alloc&) { mc::fail("copy", "copying a %zu byte file threw std::bad_alloc", m.data.size()); }
			// The copy must be independent of the original.
			uint8_t z = 0; uint64_t at = f.tell();
			if (f.size()) { f.seek(0); f.read(&z, 1); f.seek(0); z = (uint8_t)~z; f.write(&z, 1); }
			(void)at;
			w.f = std::move(g); w.managed = true; w.limit = SIZE_MAX;
			w.ok = w.f->ok();
			break;
		}
		case 30: {
			uint32_t a[2] = { 0x04030201, 0x08070605 };
			size_t r = f.write_array(a, 4, 2);
			if (m.pos + 8 <= w.limit) { MC_CHECK(r == 2, "write.count", "write_array returned %zu", r); m.write(a, 8); expect_state(w, state_t::ok, name); }
			else { MC_CHECK(r == 0, "write.count", "write_array returned %zu", r); expect_state(w, state_t::fail, name); }
			break;
		}
		case 31: {
			uint32_t a[2] = { 0, 0 };
			size_t r = f.read_array(a, 4, 2);
			bytes e = m.read(8);
			MC_CHECK(r == e.size() / 4 && memcmp(a, e.data(), r * 4) == 0, "read_array", "read_array gave %zu elements, expected %zu", r, e.size() / 4);
			w.ok = f.ok();
			MC_CHECK(f.ok() == (e.size() == 8), "state", "read_array of 8 bytes with %zu available left state %s", e.size(), st_name(f.state()));
			break;
		}
		}
		w.ok = w.f->ok();
		verify(w, name);
	}
}

MC_HARNESS(memory_file_ops)
{
	World w;
	bytes init = pattern(3, 'A');
	uint8_t* ext = nullptr;
	struct G { uint8_t*& p; ~G() { delete[] p; } } g{ ext };
	switch (mc::choose(4)) {
	case 0: w.f.reset(new memory_file()); break;
	case 1: w.f.reset(new memory_file((size_t)2)); break;
	case 2: ext = new uint8_t[4]; memcpy(ext, init.data(), 3); w.f.reset(new memory_file(ext, (size_t)3, (size_t)4)); w.m.data = init; w.managed = false; w.limit = 4; break;
	case 3: { void* p = malloc(3); memcpy(p, init.data(), 3); w.f.reset(new memory_file(p, (size_t)3, true)); w.m.data = init; break; }
	}
	size_t depth = (mc::thorough() ? 5 : 4) - !CHECK_STREAM_STATE;
	for (size_t i = 0; i < depth; i++) {
		if (i == 2) mc::job();
		step(w, depth - i);
	}
	mc::outcome(w.m.h());
	if (w.m.data.size() > 1) mc::nontrivial();
}

// Random access by absolute offset: set()/get() of every supported type.
template <class T> static void setget(memory_file& f, model_file& m, size_t off, T v)
{
	f.set((uint64_t)off, v);
	memcpy(m.data.data() + off, &v, sizeof v);
	T r; f.get((uint64_t)off, r);
	MC_CHECK(memcmp(&r, &v, sizeof v) == 0, "setget", "get after set of a %zu byte value at %zu differs", sizeof v, off);
}
MC_HARNESS(memory_file_setget)
{
	memory_file f; model_file m;
	bytes b = pattern(20); f.write(b.data(), b.size()); m.write(b);
	size_t n = mc::thorough() ? 4 : 3;
	for (size_t i = 0; i < n; i++) {
		size_t t = mc::choose(11);
		if (i == 0) mc::job();
		size_t off = mc::choose(11);
		MC_LOG("set type %zu at %zu", t, off);
		switch (t) {
		case 0: setget<int8_t>(f, m, off, -3); break;
		case 1: setget<int16_t>(f, m, off, -300); break;
		case 2: setget<int32_t>(f, m, off, -70000); break;
		case 3: setget<int64_t>(f, m, off, -5000000000ll); break;
		case 4: setget<uint8_t>(f, m, off, 200); break;
		case 5: setget<uint16_t>(f, m, off, 60000); break;
		case 6: setget<uint32_t>(f, m, off, 4000000000u); break;
		case 7: setget<uint64_t>(f, m, off, 0x8877665544332211ull); break;
		case 8: setget<float>(f, m, off, 1.5f); break;
		case 9: setget<double>(f, m, off, -2.25); break;
		case 10: setget<char>(f, m, off, 'q'); break;
		}
		mc::transition();
		MC_CHECK(f.size() == 20 && memcmp(f.data(), m.data.data(), 20) == 0, "content", "content differs after set: %s, expected %s", mc::quote(f.data(), 20).c_str(), show(m.data).c_str());
		MC_CHECK(f.tell() == 20, "position", "set/get moved the position");
		mc::state(m.h());
	}
	mc::outcome(m.h()); mc::nontrivial();
}

// load()/save(): content survives a trip through the file system.
MC_HARNESS(memory_file_load_save)
{
	static const size_t sizes[] = { 0, 1, 5, 4096, 65535, 65536, 65537, 131072, 200000 };
	size_t n = mc::pick(sizes), old = mc::pick(sizes);
	mc::job();
	std::string dir = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp";
	std::string fn = dir + mc::str("/ls.%d", (int)getpid());
	bytes b = pattern(n), o = pattern(old, 'A');
	{ file f(fn.c_str(), mode_for_writing | mode_create); if (old) f.write(o.data(), old); }
	{
		memory_file m;
		if (n) m.write(b.data(), n);
		size_t at = n / 2; m.seek((foff_t)at);
		m.save(fn.c_str(), mode_for_writing | mode_preserve_existing);
		MC_CHECK(m.ok(), "save", "save of %zu bytes failed", n);
	}
	{
		memory_file m;
		m.write("previous content", 16);
		m.load(fn.c_str(), mode_for_reading | mode_open_existing);
		MC_CHECK(m.ok(), "load", "load of %zu bytes failed", n);
		MC_CHECK(m.tell() == 0, "load", "position after load is %llu", (unsigned long long)m.tell());
		MC_CHECK(content(m) == b, "load", "saved %zu bytes over a file of %zu, loaded %llu (content differs)", n, old, (unsigned long long)m.size());
	}
	for (int how = 0; how < 4; how++) { // the constructors load, too, and files can be named with strings
		std::unique_ptr<memory_file> m;
		if (how == 0) m.reset(new memory_file(fn.c_str(), mode_for_reading | mode_open_existing)); else if (how == 1) m.reset(new memory_file(fn, mode_for_reading | mode_open_existing));
		else if (how == 2) { m.reset(new memory_file); m->load(fn, mode_for_reading | mode_open_existing); m->save(fn, mode_for_writing | mode_preserve_existing); MC_CHECK(m->ok(), "save", "saving what was loaded fails"); }
		else { m.reset(new memory_file(fn + ".missing", mode_for_reading | mode_open_existing)); MC_CHECK(m->state() == state_t::fail && m->size() == 0, "load", "a memory file of a missing file is %s with %llu bytes", st_name(m->state()), (unsigned long long)m->size()); continue; }
		MC_CHECK(m->ok() && m->tell() == 0 && content(*m) == b, "load", "constructed from a file of %zu bytes: %llu bytes at %llu, state %s", n, (unsigned long long)m->size(), (unsigned long long)m->tell(), st_name(m->state()));
	}
	unlink(fn.c_str());
	{
		memory_file m; m.load((fn + ".missing").c_str(), mode_for_reading | mode_open_existing);
		MC_CHECK(m.state() == state_t::fail, "load", "loading a missing file reports %s", st_name(m.state()));
	}
	mc::transition(2); mc::state(n * 1000003 + old); mc::outcome(n * 1000003 + old); if (n && old) mc::nontrivial();
}

// Sizes around the blocks memory is taken in, up to a few of them; and amounts that no memory can hold.
MC_HARNESS(memory_file_large)
{
	static const size_t B = 0x10000;
	static const size_t sizes[] = { 1, B - 1, B + 1, 4 * B / 5, 2 * B + 1, 5 * B + 3 };
	size_t depth = mc::thorough() ? 4 : 3; std::unique_ptr<memory_file> box(new memory_file); memory_file& f = *box; bytes m; size_t pos = 0;
	static const bytes all = [] { bytes b(16 * B); for (size_t i = 0; i < b.size(); i++) b[i] = (uint8_t)(i * 131 + (i >> 8) * 7 + (i >> 16)); return b; }();
	for (size_t i = 0; i < depth; i++) {
		size_t op = mc::choose(7), n = mc::pick(sizes), from = i * 1000;
		if (i == 1) mc::job();
		MC_LOG("op %zu, %zu bytes at %zu of %zu", op, n, pos, m.size());
		auto wrote = [&](size_t r, const uint8_t* p, size_t k) {
			MC_CHECK(r == k && f.ok(), "write.count", "write of %zu bytes returned %zu, state %s", k, r, st_name(f.state()));
			if (m.size() < pos + k) m.resize(pos + k); memcpy(m.data() + pos, p, k); pos += k;
		};
		switch (op) {
		case 0: { std::unique_ptr<uint8_t[]> d(new uint8_t[n]); memcpy(d.get(), all.data() + from, n); size_t r = f.write(d.get(), n); wrote(r, d.get(), n); break; }
		case 1: { f.write_byte('x', n); bytes x(n, 'x'); wrote(n, x.data(), n); break; }
		case 2: { std::unique_ptr<uint8_t[]> d(new uint8_t[n]); size_t r = f.read(d.get(), n), want = std::min(n, m.size() - std::min(pos, m.size()));
			MC_CHECK(r == want && !memcmp(d.get(), m.data() + std::min(pos, m.size()), r), "content", "read of %zu at %zu of %zu returned %zu or something else", n, pos, m.size(), r); pos += r; break; }
		case 3: pos = n / 2; f.seekbeg(n / 2); break;
		case 4: pos = std::min(pos, m.size()); if (pos != f.tell()) f.seekbeg(pos); f.truncate(); m.resize(pos); break;
		case 5: f.reserve(n, true); MC_CHECK(f.ok(), "state", "reserving %zu bytes fails", n); if (m.size() > n) m.resize(n); break;
		case 6: { ref_file s(bytes(all.begin() + from, all.begin() + from + n)); size_t r = (size_t)f.write_stream(s, n + (i & 1)); wrote(r, all.data() + from, n); break; }
		}
		MC_CHECK(f.size() == m.size() && f.tell() == pos, "size", "size %llu at %llu, expected %zu at %zu", (unsigned long long)f.size(), (unsigned long long)f.tell(), m.size(), pos);
		MC_CHECK(!m.size() || !memcmp(f.data(), m.data(), m.size()), "content", "content of %zu bytes differs", m.size());
		mc::state(mc::hmix(mc::hmix(m.size(), pos), op)); mc::transition();
	}
	if (m.size() < 3 * B) for (size_t huge : { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 5 * 4, SIZE_MAX / 5 * 4 + 1, SIZE_MAX / 5 * 4 + 2, SIZE_MAX - 0x10000, (size_t)0xCCCCCCCCCCCCCCCDull, (size_t)0xCCCCCCCCCCCCFFFFull, (size_t)0xE000000000000000ull }) for (bool tight : { false, true }) {
		f.reserve(huge, tight);
		MC_CHECK(f.state() == state_t::fail && f.size() == m.size() && (!m.size() || !memcmp(f.data(), m.data(), m.size())), "reserve.huge", "reserving 0x%zx bytes leaves state %s and %llu bytes of %zu", huge, st_name(f.state()), (unsigned long long)f.size(), m.size());
	}
	mc::outcome(mc::hmix(m.size(), pos)); mc::nontrivial();
}
