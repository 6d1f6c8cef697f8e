#include "common.h"
using namespace stdex::stream;

namespace {
	const char* names[] = {
		"write 1", "write 2", "write 5", "write 8", "read 1", "read 3", "read 4", "read 9",
		"seek 0", "seek 1", "seek 4", "seek 7", "seek cur -1", "seek cur 3", "seek end 0", "seek end -3",
		"truncate", "flush", "read 0", "read_remainder", "write 0",
	};
	const size_t n_ops = sizeof names / sizeof *names;

	void step(cache& c, ref_file& src, model_file& m, uint8_t& next, size_t op)
	{
		const char* name = names[op];
		MC_LOG("%s (pos %llu size %zu)", name, (unsigned long long)m.pos, m.data.size());
		auto wr = [&](size_t n) {
			bytes b = pattern(n, next); next = (uint8_t)(next + n);
			size_t r = c.write(b.data(), n);
			MC_CHECK(r == n && c.ok(), "write", "%s returned %zu, state %s", name, r, st_name(c.state()));
			m.write(b);
		};
		auto rd = [&](size_t n) {
			bytes b(n, 0xEE);
			size_t r = c.read(b.data(), n);
			bytes e = m.read(n);
			MC_CHECK(r == e.size() && sub(b, 0, r) == e, "read", "%s returned %s, expected %s", name, show(sub(b, 0, r)).c_str(), show(e).c_str());
			MC_CHECK(c.state() == (n && e.empty() ? state_t::eof : state_t::ok), "read.state", "%s: state %s", name, st_name(c.state()));
		};
		auto sk = [&](int64_t off, seek_t how) {
			int64_t t = off + (how == seek_t::beg ? 0 : how == seek_t::cur ? (int64_t)m.pos : (int64_t)m.data.size());
			bool threw = false;
			try { c.seek(off, how); } catch (const std::invalid_argument&) { threw = true; }
			MC_CHECK(threw == (t < 0), "seek", "%s to %lld", name, (long long)t);
			if (t >= 0) m.pos = (uint64_t)t;
		};
		switch (op) {
		case 0: wr(1); break; case 1: wr(2); break; case 2: wr(5); break; case 3: wr(8); break;
		case 4: rd(1); break; case 5: rd(3); break; case 6: rd(4); break; case 7: rd(9); break;
		case 8: sk(0, seek_t::beg); break; case 9: sk(1, seek_t::beg); break; case 10: sk(4, seek_t::beg); break; case 11: sk(7, seek_t::beg); break;
		case 12: sk(-1, seek_t::cur); break; case 13: sk(3, seek_t::cur); break; case 14: sk(0, seek_t::end); break; case 15: sk(-3, seek_t::end); break;
		case 16: c.truncate(); m.data.resize(m.pos); MC_CHECK(c.ok(), "truncate", "truncate failed"); break;
		case 17:
			c.flush();
			MC_CHECK(c.ok(), "flush", "flush failed");
			MC_CHECK(src.data == m.data, "flush.content", "after flush the file holds %s, expected %s", show(src.data).c_str(), show(m.data).c_str());
			MC_CHECK(src.flushes > 0, "flush.source", "flush was not passed to the file");
			break;
		case 18: rd(0); break;
		case 19: {
			bytes r = c.read_remainder(), e = m.read(SIZE_MAX);
			MC_CHECK(r == e, "read", "read_remainder gave %s, expected %s", show(r).c_str(), show(e).c_str());
			break;
		}
		case 20: wr(0); break;
		}
		MC_CHECK(c.tell() == m.pos, "tell", "after %s: tell() is %llu, expected %llu", name, (unsigned long long)c.tell(), (unsigned long long)m.pos);
		MC_CHECK(c.size() == m.data.size(), "size", "after %s: size() is %llu, expected %zu", name, (unsigned long long)c.size(), m.data.size());
		mc::transition();
		mc::state(mc::hmix(m.h(), mc::hash(src.data.data(), src.data.size())));
	}
}

MC_HARNESS(cache_ops)
{
	static const size_t caps[] = { 4, 3, 1 };
	size_t cap = caps[mc::choose(mc::thorough() ? 3 : 2)];
	size_t init = mc::choose(2) ? 10 : 0;
	ref_file src(pattern(init, 'A'));
	src.pos = mc::choose(2) && init ? 6 : 0;
	model_file m; m.data = src.data; m.pos = src.pos;
	uint8_t next = 'a';
	size_t depth = mc::thorough() ? 5 : cap == 4 && init && !src.pos ? 5 : 4;
	{
		std::unique_ptr<cache> c(new cache(src, cap));
		MC_LOG("cache of %zu over %zu bytes at %llu", cap, init, (unsigned long long)src.pos);
		for (size_t i = 0; i < depth; i++) {
			if (i == 1) mc::job();
			step(*c, src, m, next, mc::choose(n_ops));
		}
		if (init && mc::choose(2)) {
			c->close();
			MC_CHECK(c->ok() && src.closes == 1, "close", "close was not passed to the file");
			MC_CHECK(src.data == m.data, "close.content", "after close the file holds %s, expected %s", show(src.data).c_str(), show(m.data).c_str());
		}
		else {
			c.reset();
			MC_CHECK(src.data == m.data, "destroy.content", "after the cache is gone the file holds %s, expected %s", show(src.data).c_str(), show(m.data).c_str());
			MC_CHECK(src.pos == m.pos, "destroy.position", "after the cache is gone the file is at %llu, expected %llu", (unsigned long long)src.pos, (unsigned long long)m.pos);
		}
	}
	mc::outcome(m.h());
	if (next != 'a') mc::nontrivial();
}

// The environment may refuse or shorten any single operation of the underlying file.
MC_HARNESS(cache_faults)
{
	size_t cap = 4;
	bytes init = pattern(10, 'A');
	ref_file src(init);
	model_file m; m.data = src.data;
	uint8_t next = 'a';
	mc::set_deviation_bound(mc::thorough() ? 3 : 2);
	size_t depth = mc::thorough() ? 5 : 4;
	std::vector<bool> touched(64, false);
	size_t failed_ops = 0; // source operations that were refused
	src.fault = [&](char op, uint64_t, size_t n) -> size_t {
		size_t f = mc::choose_dev(op == 'r' || op == 'w' ? n > 1 ? 3 : 2 : 2);
		if (f) { MC_LOG("  environment: %c %s", op, f == 1 ? "fails" : "is cut short"); if (f == 1 || op == 'w') ++failed_ops; }
		return f;
	};
	static const size_t ops[] = { 0, 2, 3, 5, 7, 8, 10, 11, 14, 16, 17 }; // write 1,5,8 read 3,9 seek 0,4,7,end truncate flush
	bool reported = false;
	auto may_fail = [&]() { reported = true; };
	std::unique_ptr<cache> c(new cache(src, cap));
	struct Calm { ref_file& f; ~Calm() { f.fault = nullptr; } } calm{ src }; // no more faults once the execution is over
	bool dirty = false;
	uint64_t cut = UINT64_MAX; // lowest truncation point requested
	for (size_t i = 0; i < depth && !reported; i++) {
		if (i == 1) mc::job();
		size_t op = ops[mc::choose(sizeof ops / sizeof *ops)];
		const char* name = names[op];
		MC_LOG("%s (pos %llu size %zu)", name, (unsigned long long)m.pos, m.data.size());
		size_t before = failed_ops;
		auto wr = [&](size_t n) {
			bytes b = pattern(n, next); next = (uint8_t)(next + n);
			for (uint64_t k = std::min<uint64_t>(m.pos, m.data.size()); k < m.pos + n && k < touched.size(); k++) touched[k] = true;
			size_t r = c->write(b.data(), n);
			MC_CHECK(r <= n, "fault.count", "%s returned %zu", name, r);
			dirty = true;
			if (r == n && c->ok()) m.write(b);
			else { MC_CHECK(!c->ok(), "fault.unreported", "%s wrote %zu bytes but the state is ok", name, r); may_fail(); }
		};
		auto rd = [&](size_t n) {
			bytes b(n, 0xEE);
			size_t r = c->read(b.data(), n);
			bytes e = sub(m.data, m.pos, n);
			MC_CHECK(r <= e.size() && sub(b, 0, r) == sub(e, 0, r), "fault.read", "%s returned %s, expected (a prefix of) %s", name, show(sub(b, 0, r)).c_str(), show(e).c_str());
			if (r == 0 && !e.empty()) { MC_CHECK(c->state() == state_t::fail, "fault.unreported", "%s returned nothing and state %s although there is data and the file failed", name, st_name(c->state())); may_fail(); }
			if (r < e.size() && r) MC_CHECK(failed_ops > before || mc::deviations(), "fault.read", "%s returned %zu of %zu bytes", name, r, e.size());
			m.pos += r;
			if (e.empty() && failed_ops == before) MC_CHECK(c->state() == state_t::eof, "fault.eof", "%s at end: state %s", name, st_name(c->state()));
		};
		switch (op) {
		case 0: wr(1); break; case 2: wr(5); break; case 3: wr(8); break;
		case 5: rd(3); break; case 7: rd(9); break;
		case 8: c->seek(0); m.pos = 0; break; case 10: c->seek(4); m.pos = 4; break; case 11: c->seek(7); m.pos = 7; break;
		case 14: c->seek(0, seek_t::end); m.pos = m.data.size(); break;
		case 16:
			cut = std::min(cut, m.pos);
			for (size_t k = m.data.size(); k < m.pos && k < touched.size(); k++) touched[k] = true;
			c->truncate();
			if (c->ok()) m.data.resize(m.pos); else may_fail();
			break;
		case 17:
			c->flush();
			if (c->ok()) {
				MC_CHECK(failed_ops == before, "fault.unreported", "flush reports success although the file refused an operation");
				MC_CHECK(src.data == m.data, "fault.flush", "flush reports success but the file holds %s, expected %s", show(src.data).c_str(), show(m.data).c_str());
			}
			else may_fail();
			break;
		}
		if (!reported) MC_CHECK(c->tell() == m.pos, "fault.tell", "after %s: tell() is %llu, expected %llu", name, (unsigned long long)c->tell(), (unsigned long long)m.pos);
		mc::transition();
		mc::state(mc::hmix(m.h(), mc::hash(src.data.data(), src.data.size())));
	}
	bool threw = false; size_t before = failed_ops;
	try { delete c.release(); } catch (const std::system_error&) { threw = true; }
	if (!reported && !threw) {
		MC_CHECK(failed_ops == before || src.data == m.data, "fault.unreported", "the cache went away without an error although writing back failed");
		MC_CHECK(src.data == m.data, "fault.destroy", "no operation failed but the file holds %s, expected %s", show(src.data).c_str(), show(m.data).c_str());
	}
	// Whatever failed: bytes nobody wrote to are never altered.
	for (size_t k = 0; k < init.size(); k++)
		if (!touched[k] && k < cut) {
			MC_CHECK(k < src.data.size(), "fault.shrunk", "the file lost byte %zu nobody removed", k);
			MC_CHECK(src.data[k] == init[k], "fault.corrupt", "byte %zu, never written, changed from %02x to %02x", k, init[k], src.data[k]);
		}
	mc::outcome(mc::hmix(m.h(), threw * 2 + reported));
	if (mc::deviations()) mc::nontrivial();
}

// cached_file over a real file: contents after any history equal those of the model; reopening starts afresh.
MC_HARNESS(cached_file_reopen)
{
	std::string dir = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp";
	std::string fa = dir + mc::str("/ca.%d", (int)getpid()), fb = dir + mc::str("/cb.%d", (int)getpid());
	bytes a = pattern(10, 'A'), b = pattern(6, '0');
	auto put = [](const std::string& n, const bytes& d) { FILE* f = fopen(n.c_str(), "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f); };
	auto get = [](const std::string& n) { bytes d(100); FILE* f = fopen(n.c_str(), "rb"); d.resize(f ? fread(d.data(), 1, 100, f) : 0); if (f) fclose(f); return d; };
	put(fa, a); put(fb, b);
	model_file ma, mb; ma.data = a; mb.data = b;
	model_file* m = &ma;
	uint8_t next = 'a';
	{
		cached_file f(fa.c_str(), mode_for_reading | mode_for_writing | mode_open_existing, 4);
		MC_CHECK(f.ok() && (bool)f, "open", "open failed");
		size_t depth = mc::thorough() ? 6 : 5;
		for (size_t i = 0; i < depth; i++) {
			size_t op = mc::choose(8);
			if (i == 1) mc::job();
			MC_LOG("op %zu pos %llu", op, (unsigned long long)m->pos);
			switch (op) {
			case 0: { bytes x = pattern(3, next); next += 3; size_t r = f.write(x.data(), 3); MC_CHECK(r == 3 && f.ok(), "write", "write returned %zu", r); m->write(x); break; }
			case 1: case 2: { size_t n = op == 1 ? 2 : 7; bytes x(n); size_t r = f.read(x.data(), n); bytes e = m->read(n); MC_CHECK(r == e.size() && sub(x, 0, r) == e, "read", "read gave %s, expected %s", show(sub(x, 0, r)).c_str(), show(e).c_str()); break; }
			case 3: f.seek(1); m->pos = 1; break;
			case 4: f.seek(0, seek_t::end); m->pos = m->data.size(); break;
			case 5: f.flush(); MC_CHECK(f.ok(), "flush", "flush failed"); { bytes d = get(m == &ma ? fa : fb); MC_CHECK(d == m->data, "flush.content", "file holds %s, expected %s", show(d).c_str(), show(m->data).c_str()); } break;
			case 6:
				m = m == &ma ? &mb : &ma; m->pos = 0;
				f.open((m == &ma ? fa : fb).c_str(), mode_for_reading | mode_for_writing | mode_open_existing);
				MC_CHECK(f.ok(), "open", "reopen failed");
				break;
			case 7: f.truncate(); MC_CHECK(f.ok(), "truncate", "truncate failed"); m->data.resize(m->pos); break;
			}
			MC_CHECK(f.tell() == m->pos && f.size() == m->data.size(), "tell", "tell %llu size %llu, expected %llu %zu", (unsigned long long)f.tell(), (unsigned long long)f.size(), (unsigned long long)m->pos, m->data.size());
			mc::transition(); mc::state(mc::hmix(ma.h(), mb.h()));
		}
	}
	bytes da = get(fa), db = get(fb);
	unlink(fa.c_str()); unlink(fb.c_str());
	MC_CHECK(da == ma.data, "content", "first file holds %s, expected %s", show(da).c_str(), show(ma.data).c_str());
	MC_CHECK(db == mb.data, "content", "second file holds %s, expected %s", show(db).c_str(), show(mb.data).c_str());
	mc::outcome(mc::hmix(ma.h(), mb.h())); if (next != 'a') mc::nontrivial();
}

// Times of a cached file are those of the file, and what a file cannot do is refused through its cache, too.
MC_HARNESS(cache_times)
{
	typedef stdex::stream::time_point TP;
	struct timed : ref_file {
		TP t[3]; bool can; mutable std::string log;
		timed(bool can) : ref_file(pattern(5)), can(can) { for (int i = 0; i < 3; i++) t[i] = TP(std::chrono::hours(24 * (100 + i))); }
		TP ctime() const override { return can ? t[0] : ref_file::ctime(); }
		TP atime() const override { return can ? t[1] : ref_file::atime(); }
		TP mtime() const override { return can ? t[2] : ref_file::mtime(); }
		void set_ctime(TP x) override { if (!can) return ref_file::set_ctime(x); t[0] = x; }
		void set_atime(TP x) override { if (!can) return ref_file::set_atime(x); t[1] = x; }
		void set_mtime(TP x) override { if (!can) return ref_file::set_mtime(x); t[2] = x; }
	};
	bool can = mc::flip(); size_t block = mc::flip() ? 4 : 4096; size_t plan = 0, n = 3; for (size_t i = 0; i < n; i++) plan = plan * 6 + mc::choose(6);
	mc::job();
	timed f(can); TP want[3]; for (int i = 0; i < 3; i++) want[i] = can ? f.t[i] : TP::min();
	{
		stdex::stream::cache c(f, block); size_t p = plan;
		for (size_t i = 0; i < n; i++, p /= 6) {
			size_t op = p % 6; TP x(std::chrono::seconds(1000 * (i + 1) + op)); bool threw = false;
			try { switch (op) { case 0: c.set_ctime(x); break; case 1: c.set_atime(x); break; case 2: c.set_mtime(x); break; case 3: { uint8_t b; c.read(&b, 1); break; } case 4: c.write("z", 1); break; case 5: c.flush(); break; } } catch (const std::domain_error&) { threw = true; }
			MC_CHECK(threw == (op < 3 && !can), "cache.times", "setting time %zu of a file that %s it %s", op, can ? "has" : "does not have", threw ? "throws" : "does not throw");
			if (op < 3 && can) want[op] = x;
			const stdex::stream::basic_file& k = c;
			MC_CHECK(k.ctime() == want[0] && k.atime() == want[1] && k.mtime() == want[2] && (!can || (f.t[0] == want[0] && f.t[1] == want[1] && f.t[2] == want[2])), "cache.times", "wrong times after step %zu of plan %zu", i, plan);
			mc::transition();
		}
	}
	MC_CHECK(!can || (f.t[0] == want[0] && f.t[1] == want[1] && f.t[2] == want[2]), "cache.times", "destroying the cache changed the times of the file");
	for (int what = 0; what < 2; what++) { stdex::stream::cache c(f, block); bool threw = false; try { if (what) c.unlock(1, 2); else c.lock(1, 2); } catch (const std::domain_error&) { threw = true; } MC_CHECK(threw, "cache.lock", "a file that cannot be locked is locked"); }
	mc::state(mc::hmix(plan, can * 2 + (block == 4))); mc::outcome(mc::hmix(plan, can)); mc::nontrivial();
}
