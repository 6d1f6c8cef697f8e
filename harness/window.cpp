#include "common.h"
using namespace stdex::stream;

// A limiter lets exactly its budget through, whatever the request sizes and however the source cuts reads.
MC_HARNESS(limiter_ops)
{
	static const uint64_t lims[] = { 0, 1, 4, 20, fsize_max };
	uint64_t rl = mc::pick(lims), wl = mc::pick(lims);
	short_source src(pattern(7)); short_sink dst;
	mc::job();
	mc::set_deviation_bound(2);
	struct both : basic { short_source& s; short_sink& d; both(short_source& a, short_sink& b) : s(a), d(b) {}
		size_t read(void* p, size_t n) override { size_t r = s.read(p, n); m_state = s.state(); return r; }
		size_t write(const void* p, size_t n) override { size_t r = d.write(p, n); m_state = d.state(); return r; } } io(src, dst);
	limiter l(io, rl, wl);
	size_t got = 0, put = 0; uint8_t next = 'a'; bytes all;
	size_t rmax = (size_t)std::min<uint64_t>(rl, 7);
	static const size_t ns[] = { 1, 2, 3, 6, 0 };
	for (size_t i = 0; i < (mc::thorough() ? 6 : 5); i++) {
		bool w = mc::flip(); size_t n = mc::pick(ns);
		if (w) {
			bytes x = pattern(n, next); size_t left = wl == fsize_max ? SIZE_MAX : (size_t)wl - put;
			size_t r = l.write(x.data(), n);
			MC_LOG("write %zu -> %zu %s", n, r, st_name(l.state()));
			MC_CHECK(r == std::min(n, left), "write.count", "write(%zu) with %zu left returned %zu", n, left, r);
			if (n && !left) MC_CHECK(l.state() == state_t::fail, "write.state", "write beyond the limit left state %s", st_name(l.state()));
			if (n <= left) MC_CHECK(l.ok(), "write.state", "write within the limit left state %s", st_name(l.state()));
			all.insert(all.end(), x.begin(), x.begin() + r); put += r; next = (uint8_t)(next + n);
			MC_CHECK(dst.data == all, "write.data", "destination holds %s, expected %s", show(dst.data).c_str(), show(all).c_str());
			MC_CHECK(wl == fsize_max ? l.write_limit == fsize_max : l.write_limit == wl - put, "write.left", "write limit left is %llu", (unsigned long long)l.write_limit);
		}
		else {
			uint8_t p[8]; size_t r = l.read(p, n);
			MC_LOG("read %zu -> %zu %s", n, r, st_name(l.state()));
			MC_CHECK(r <= n && got + r <= rmax && bytes(p, p + r) == sub(src.data, got, r), "read.data", "read(%zu) at %zu returned %s", n, got, mc::quote(p, r).c_str());
			got += r;
			if (n && !r) { MC_CHECK(got == rmax, "read.early", "end reported after %zu of %zu bytes", got, rmax); MC_CHECK(l.state() == state_t::eof, "read.state", "end reported as %s", st_name(l.state())); }
			else MC_CHECK(l.ok(), "read.state", "read(%zu) returned %zu, state %s", n, r, st_name(l.state()));
			MC_CHECK(rl == fsize_max ? l.read_limit == fsize_max : l.read_limit == rl - got, "read.left", "read limit left is %llu", (unsigned long long)l.read_limit);
		}
		mc::transition(); mc::state(got * 4096 + put * 64 + i);
	}
	mc::outcome(mc::hmix(got * 64 + put, rl * 31 + wl)); if (got || put) mc::nontrivial();
}

// A window delivers / accepts exactly the selected range of the stream.
MC_HARNESS(window_ops)
{
	static const uint64_t offs[] = { 0, 1, 3, 6, 18 }, lims[] = { 0, 1, 3, fsize_max };
	uint64_t ro = mc::pick(offs), rl = mc::pick(lims), wo = mc::pick(offs), wl = mc::pick(lims);
	mc::job();
	size_t len = ro == 18 ? 22 : 7;
	short_source src(pattern(len)); short_sink dst;
	mc::set_deviation_bound(1);
	struct both : basic { short_source& s; short_sink& d; both(short_source& a, short_sink& b) : s(a), d(b) {}
		size_t read(void* p, size_t n) override { size_t r = s.read(p, n); m_state = s.state(); return r; }
		size_t write(const void* p, size_t n) override { size_t r = d.write(p, n); m_state = d.state(); return r; } } io(src, dst);
	window w(io, ro, rl, wo, wl);
	bytes rexp = sub(src.data, ro, (size_t)std::min<uint64_t>(rl, SIZE_MAX));
	size_t got = 0; bytes all; uint8_t next = 'a';
	static const size_t ns[] = { 1, 2, 5, 0 };
	bool writer = mc::flip();
	for (size_t i = 0; i < (mc::thorough() ? 6 : 5); i++) {
		size_t n = mc::pick(ns);
		if (writer) {
			bytes x = pattern(n, next); next = (uint8_t)(next + n);
			size_t r = w.write(x.data(), n);
			MC_LOG("write %zu -> %zu %s", n, r, st_name(w.state()));
			MC_CHECK(r == n && w.ok(), "write.count", "write(%zu) returned %zu, state %s (bytes outside the window are discarded, not refused)", n, r, st_name(w.state()));
			all.insert(all.end(), x.begin(), x.end());
			bytes e = sub(all, wo, (size_t)std::min<uint64_t>(wl, SIZE_MAX));
			MC_CHECK(dst.data == e, "write.data", "destination holds %s, expected %s", show(dst.data).c_str(), show(e).c_str());
			MC_CHECK(!dst.nulls, "write.null", "write(%zu) reaches the stream as a zero-length write", n);
		}
		else {
			uint8_t p[8]; size_t r; bool threw = false;
			try { r = w.read(p, n); } catch (const std::system_error&) { threw = true; r = 0; }
			MC_CHECK(!threw, "read.throws", "read(%zu) at %zu of the window threw", n, got);
			MC_LOG("read %zu -> %zu %s", n, r, st_name(w.state()));
			MC_CHECK(r <= n && got + r <= rexp.size() && bytes(p, p + r) == sub(rexp, got, r), "read.data", "read(%zu) at %zu returned %s, window is %s", n, got, mc::quote(p, r).c_str(), show(rexp).c_str());
			got += r;
			if (n && !r) { MC_CHECK(got == rexp.size(), "read.early", "end reported after %zu of %zu bytes", got, rexp.size()); MC_CHECK(w.state() == state_t::eof, "read.state", "end reported as %s", st_name(w.state())); }
		}
		mc::transition(); mc::state(mc::hmix(mc::hash(dst.data.data(), dst.data.size()), got * 64 + i));
	}
	mc::outcome(mc::hmix(mc::hash(dst.data.data(), dst.data.size()), got)); if (got || !dst.data.empty()) mc::nontrivial();
}

// When the stream below fails, the count returned tells what became of the data: that many bytes were either outside the
// window or really written.
MC_HARNESS(window_faults)
{
	static const uint64_t offs[] = { 0, 1, 3 }, lims[] = { 1, 3, 4, fsize_max };
	uint64_t wo = mc::pick(offs), wl = mc::pick(lims);
	static const size_t ns[] = { 1, 2, 4, 7, 9 };
	mc::set_deviation_bound(1);
	short_sink dst(true);
	window w(dst, 0, fsize_max, wo, wl);
	bytes all; uint8_t next = 'a';
	for (size_t i = 0; i < 3; i++) {
		size_t n = mc::pick(ns);
		if (i == 1) mc::job();
		bytes x = pattern(n, next); next = (uint8_t)(next + n);
		size_t r = w.write(x.data(), n);
		MC_LOG("write %zu -> %zu %s", n, r, st_name(w.state()));
		MC_CHECK(r <= n && w.ok() == (r == n), "write.count", "write(%zu) returned %zu, state %s", n, r, st_name(w.state()));
		all.insert(all.end(), x.begin(), x.begin() + r);
		bytes e = sub(all, wo, (size_t)std::min<uint64_t>(wl, SIZE_MAX));
		MC_CHECK(dst.data == e, "write.data", "after %zu bytes reported as written the destination holds %s, expected %s", all.size(), show(dst.data).c_str(), show(e).c_str());
		mc::transition();
		if (!w.ok()) break;
	}
	mc::state(mc::hmix(mc::hash(dst.data.data(), dst.data.size()), all.size())); mc::outcome(mc::hmix(dst.data.size(), all.size())); if (dst.failed) mc::nontrivial();
}

// Reading a stream that fails, within the bytes to skip, within the window or at its end.
MC_HARNESS(window_read_faults)
{
	static const uint64_t offs[] = { 0, 1, 3, 18 }, lims[] = { 1, 3, fsize_max };
	uint64_t ro = mc::pick(offs), rl = mc::pick(lims); bool win = mc::flip();
	mc::job();
	if (!win) ro = 0;
	short_source src(pattern(24)); src.fail_at = mc::choose(24);
	mc::set_deviation_bound(1);
	window w(src, ro, rl); limiter l(src, rl); basic& s = win ? (basic&)w : (basic&)l;
	bytes exp = sub(src.data, (size_t)ro, (size_t)std::min<uint64_t>(rl, SIZE_MAX)); if (src.fail_at < ro + exp.size()) exp = sub(src.data, (size_t)ro, src.fail_at > ro ? src.fail_at - (size_t)ro : 0);
	size_t got = 0; static const size_t ns[] = { 1, 4, 9 };
	for (size_t i = 0; i < 3; i++) {
		size_t n = mc::pick(ns); uint8_t p[9]; size_t r = s.read(p, n);
		MC_LOG("read %zu -> %zu %s", n, r, st_name(s.state()));
		MC_CHECK(r <= n && got + r <= exp.size() && bytes(p, p + r) == sub(exp, got, r), "read.data", "read(%zu) at %zu returned %zu bytes, %zu of %zu expected bytes are left", n, got, r, exp.size() - got, exp.size());
		got += r;
		bool ends = got == rl; // its own end comes first
		if (!r) MC_CHECK(got == exp.size() && s.state() == (ends ? state_t::eof : state_t::fail), "read.state", "nothing read at %zu, the stream fails at %zu: state %s", got, src.fail_at, st_name(s.state()));
		else MC_CHECK(s.ok(), "read.state", "read(%zu) returned %zu, state %s", n, r, st_name(s.state()));
		mc::transition(); mc::state(mc::hmix(got, i));
		if (!r && !ends) break;
	}
	mc::outcome(mc::hmix(got, rl * 31 + ro)); if (src.fail_at < ro + rl) mc::nontrivial();
}

// A window of a seekable file behaves like a file of its own, confined to the window.
MC_HARNESS(file_window_ops)
{
	ref_file src(pattern(10, 'A'));
	static const uint64_t starts[] = { 3, 0 }, lens[] = { 4, 7 };
	uint64_t start = mc::pick(starts), len = mc::pick(lens);
	file_window w(src, start, len);
	bytes before = src.data;
	w.seek(0);
	uint64_t pos = 0; // relative to the window
	uint8_t next = 'a';
	MC_CHECK(w.tell() == 0, "tell", "after seek(0) tell() is %llu", (unsigned long long)w.tell());
	const char* names[] = { "read 1", "read 3", "read 9", "write 1", "write 3", "write 9", "seek 0", "seek 2", "seek cur 1", "seek cur -1", "seek end 0", "seek end -2", "skip 1", "read 0", "truncate", "flush" };
	for (size_t i = 0; i < (mc::thorough() ? 6 : 5); i++) {
		size_t op = mc::choose(sizeof names / sizeof *names);
		if (i == 1) mc::job();
		const char* name = names[op];
		MC_LOG("%s (at %llu)", name, (unsigned long long)pos);
		auto rd = [&](size_t n) {
			uint8_t p[10]; size_t r = w.read(p, n);
			size_t left = pos < len ? (size_t)(len - pos) : 0, e = std::min(n, left);
			MC_CHECK(r == e && bytes(p, p + r) == sub(src.data, start + pos, e), "read", "%s returned %s, expected %s", name, mc::quote(p, r).c_str(), show(sub(src.data, start + pos, e)).c_str());
			MC_CHECK(w.state() == (n && !e ? state_t::eof : state_t::ok), "read.state", "%s: state %s", name, st_name(w.state()));
			pos += r;
		};
		auto wr = [&](size_t n) {
			bytes x = pattern(n, next); next = (uint8_t)(next + n);
			size_t left = pos < len ? (size_t)(len - pos) : 0, e = std::min(n, left);
			bytes exp = src.data; std::copy(x.begin(), x.begin() + e, exp.begin() + start + pos);
			size_t r = w.write(x.data(), n);
			MC_CHECK(r == e, "write", "%s returned %zu, expected %zu", name, r, e);
			MC_CHECK(src.data == exp, "write.data", "%s made the file %s, expected %s", name, show(src.data).c_str(), show(exp).c_str());
			MC_CHECK(w.state() == (e ? state_t::ok : state_t::fail), "write.state", "writing %zu of %zu bytes to the window: state %s", e, n, st_name(w.state()));
			pos += e;
		};
		auto sk = [&](uint64_t to, uint64_t r) { MC_CHECK(w.ok() && r == to, "seek", "%s returned %llu, expected %llu", name, (unsigned long long)r, (unsigned long long)to); pos = to; };
		switch (op) {
		case 0: rd(1); break; case 1: rd(3); break; case 2: rd(9); break; case 13: rd(0); break;
		case 3: wr(1); break; case 4: wr(3); break; case 5: wr(9); break;
		case 6: sk(0, w.seek(0)); break;
		case 7: sk(2, w.seekbeg(2)); break;
		case 8: if (pos < len) sk(pos + 1, w.seekcur(1)); break;
		case 9: if (pos) sk(pos - 1, w.seekcur(-1)); break;
		case 10: sk(len, w.seekend(0)); break;
		case 11: sk(len - 2, w.seekend(-2)); break;
		case 12: if (pos < len) { w.skip(1); MC_CHECK(w.ok(), "skip", "skip failed"); pos++; } break;
		case 14: w.truncate(); MC_CHECK(w.state() == state_t::fail, "truncate", "truncating a window: state %s", st_name(w.state())); break;
		case 15: { size_t f = src.flushes; w.flush(); MC_CHECK(w.ok() && src.flushes == f + 1, "flush", "flush not passed on"); break; }
		}
		MC_CHECK(w.tell() == pos, "tell", "after %s: tell() is %llu, expected %llu", name, (unsigned long long)w.tell(), (unsigned long long)pos);
		MC_CHECK(w.size() == len, "size", "size() is %llu", (unsigned long long)w.size());
		MC_CHECK(src.data.size() == before.size() && sub(src.data, 0, start) == sub(before, 0, start) && sub(src.data, start + len, 10) == sub(before, start + len, 10), "outside", "bytes outside the window changed: %s", show(src.data).c_str());
		mc::transition(); mc::state(mc::hmix(mc::hash(src.data.data(), 10), pos));
	}
	mc::outcome(mc::hmix(mc::hash(src.data.data(), 10), pos)); if (next != 'a') mc::nontrivial();
}

// Locks, and seeking where there is no window.
MC_HARNESS(file_window_locks)
{
	struct locking : ref_file { using ref_file::ref_file; int locks = 0; uint64_t off = 0, n = 0; bool refuse = false;
		void lock(stdex::stream::fpos_t o, fsize_t l) override { locks++; off = o; n = l; m_state = refuse ? state_t::fail : state_t::ok; }
		void unlock(stdex::stream::fpos_t o, fsize_t l) override { locks += 16; off = o; n = l; m_state = refuse ? state_t::fail : state_t::ok; } } src(pattern(10, 'A'));
	static const uint64_t starts[] = { 3, 0 }, lens[] = { 4, 7 };
	uint64_t start = mc::pick(starts), len = mc::pick(lens), pos = mc::choose(5);
	mc::job();
	file_window w(src, start, len); w.seekbeg(pos);
	for (size_t i = 0; i < 2; i++) {
		switch (mc::choose(4)) {
		case 0: { uint8_t p[9]; uint64_t e = len - pos; size_t r = w.read(p, 9); MC_CHECK(r == e && w.state() == (e ? state_t::ok : state_t::eof), "read", "reading gives %zu of %llu, state %s", r, (unsigned long long)e, st_name(w.state())); pos += e; break; }
		case 1: w.truncate(); break;
		case 2: {
			static const uint64_t at[] = { 0, 2, 3, 20 }, many[] = { 1, 2, 100, fsize_max };
			uint64_t o = mc::pick(at), n = mc::pick(many); bool un = mc::flip(); src.refuse = mc::flip(); src.locks = 0;
			if (un) w.unlock(o, n); else w.lock(o, n);
			MC_CHECK(src.locks == (o >= len ? 0 : un ? 16 : 1), "lock", "%sing %llx at %llu makes %d calls", un ? "unlock" : "lock", (unsigned long long)n, (unsigned long long)o, src.locks);
			if (src.locks) MC_CHECK(src.off == start + o && src.n == std::min(n, len - o), "lock.range", "locking %llx bytes at %llu of a window of %llu locks %llx at %llu", (unsigned long long)n, (unsigned long long)o, (unsigned long long)len, (unsigned long long)src.n, (unsigned long long)src.off);
			MC_CHECK(w.ok() == (o < len && !src.refuse), "lock.state", "locking leaves state %s", st_name(w.state()));
			break; }
		case 3: { bool threw = false; seek_t how = (seek_t)mc::choose(3); int64_t b = how == seek_t::beg ? 0 : how == seek_t::cur ? (int64_t)pos : (int64_t)len;
			try { w.seek(-b - 1, how); } catch (const std::invalid_argument&) { threw = true; }
			MC_CHECK(threw, "seek.before", "seeking before the start of the window is not refused"); break; }
		}
		src.refuse = false;
		MC_CHECK(w.tell() == pos, "tell", "tell() is %llu, expected %llu", (unsigned long long)w.tell(), (unsigned long long)pos);
		mc::transition(); mc::state(mc::hmix(pos, src.locks * 1000 + src.n));
	}
	mc::outcome(mc::hmix(src.off, src.n)); if (src.locks) mc::nontrivial();
}

// Positions outside of the window, and windows that end past the end of the file or begin there.
MC_HARNESS(file_window_edges)
{
	static const uint64_t starts[] = { 3, 8, 10, 12 }, lens[] = { 0, 3, 7 };
	uint64_t start = mc::pick(starts), len = mc::pick(lens), first = mc::choose(15);
	mc::job();
	ref_file src(pattern(10, 'A')); src.seek((foff_t)first, seek_t::beg);
	file_window w(src, start, len);
	int64_t pos = (int64_t)first - (int64_t)start; uint8_t next = 'a';
	for (size_t i = 0; i < (mc::thorough() ? 5 : 4); i++) {
		size_t op = mc::choose(9); bool inside = pos >= 0 && (uint64_t)pos < len;
		MC_LOG("operation %zu at %lld of %llu+%llu", op, (long long)pos, (unsigned long long)start, (unsigned long long)len);
		bytes before = src.data;
		if (op < 2) {
			size_t n = op ? 5 : 1; uint8_t p[5]; size_t r = w.read(p, n); bytes e = inside ? sub(src.data, (size_t)(start + pos), (size_t)std::min<uint64_t>(n, len - pos)) : bytes();
			MC_CHECK(r == e.size() && bytes(p, p + r) == e, "read", "reading %zu at %lld gives %zu bytes %s, expected %s", n, (long long)pos, r, mc::quote(p, r).c_str(), show(e).c_str());
			MC_CHECK(w.state() == (e.empty() ? state_t::eof : state_t::ok), "read.state", "reading %zu bytes leaves state %s", r, st_name(w.state()));
			pos += r;
		}
		else if (op < 4) {
			size_t n = op == 3 ? 5 : 1, e = inside ? (size_t)std::min<uint64_t>(n, len - pos) : 0; bytes x = pattern(n, next); next = (uint8_t)(next + n);
			bytes exp = before; if (e) { if (exp.size() < start + pos + e) exp.resize(start + pos + e); std::copy(x.begin(), x.begin() + e, exp.begin() + start + pos); }
			size_t r = w.write(x.data(), n);
			MC_CHECK(r == e && w.ok() == (e > 0), "write", "writing %zu at %lld writes %zu, state %s", n, (long long)pos, r, st_name(w.state()));
			MC_CHECK(src.data == exp, "write.data", "the file is %s, expected %s", show(src.data).c_str(), show(exp).c_str());
			pos += r;
		}
		else {
			uint64_t t = op == 4 ? 0 : op == 5 ? 2 : op == 6 ? len : op == 7 ? len + 2 : 0, q;
			if (op == 8) { if (pos < 0 || (uint64_t)pos > len) continue; t = (uint64_t)pos + 1; q = w.seekcur(1); }
			else q = op == 6 ? w.seekend(0) : op == 7 ? w.seekend(2) : w.seekbeg(t);
			MC_CHECK(w.ok() && q == t, "seek", "seek to %llu gives %llu, state %s", (unsigned long long)t, (unsigned long long)q, st_name(w.state()));
			pos = (int64_t)t;
		}
		MC_CHECK(w.tell() == (pos >= 0 && (uint64_t)pos <= len ? (uint64_t)pos : fpos_max) && w.size() == len, "tell", "tell() is %llu at %lld of %llu, size() is %llu", (unsigned long long)w.tell(), (long long)pos, (unsigned long long)len, (unsigned long long)w.size());
		mc::transition(); mc::state(mc::hmix(mc::hash(src.data.data(), src.data.size()), (uint64_t)pos));
	}
	mc::outcome(mc::hmix(mc::hash(src.data.data(), src.data.size()), (uint64_t)pos)); if (next != 'a') mc::nontrivial();
}
