// Files of the operating system against a byte-array model; the file itself is looked at with plain system calls.
#include "common.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace stdex::stream;

static std::string path(const char* n) { const char* d = getenv("VERIF_SCRATCH"); return mc::str("%s/f%d-%s", d ? d : "/tmp", (int)getpid(), n); }
static void put(const std::string& p, const bytes& b)
{
	::unlink(p.c_str());
	int f = ::open(p.c_str(), O_RDWR | O_CREAT | O_EXCL, 0644);
	if (f < 0 || ::write(f, b.data(), b.size()) != (ssize_t)b.size()) mc::fail("environment", "cannot prepare %s", p.c_str());
	::close(f);
}
static bool get(const std::string& p, bytes& b)
{
	int f = ::open(p.c_str(), O_RDONLY);
	if (f < 0) return false;
	b.resize(256); ssize_t n = ::read(f, b.data(), b.size()); b.resize(n < 0 ? 0 : (size_t)n);
	::close(f);
	return true;
}

static const int access_modes[] = { mode_for_reading, mode_for_writing, mode_for_reading | mode_for_writing };
static const int dispositions[] = { mode_open_existing, mode_truncate_existing, mode_preserve_existing, mode_create_new, mode_create };
static const char* disp_name(int m) { switch (m & mode_disposition_mask) { case mode_open_existing: return "open_existing"; case mode_truncate_existing: return "truncate_existing"; case mode_preserve_existing: return "preserve_existing"; case mode_create_new: return "create_new"; default: return "create"; } }
static std::string mode_name(int m) { return mc::str("%s%s %s%s", m & mode_for_reading ? "r" : "", m & mode_for_writing ? "w" : "", disp_name(m), m & mode_append ? " append" : ""); }

struct opened { bool ok; model_file m; };
static opened expect_open(bool exists, const bytes& content, int mode)
{
	opened o{ true, {} };
	int d = mode & mode_disposition_mask;
	o.m.data = content;
	if (!exists) { o.ok = d == mode_preserve_existing || d == mode_create_new || d == mode_create; o.m.data.clear(); }
	else if (d == mode_create_new) o.ok = false;
	else if (d == mode_truncate_existing || d == mode_create) o.m.data.clear();
	o.m.pos = mode & mode_append ? o.m.data.size() : 0;
	return o;
}

template <class F> static void open_case(bool cached)
{
	std::string p = path("open");
	size_t pre = mc::choose(3); size_t again = mc::choose(3);
	int mode = mc::pick(access_modes) | mc::pick(dispositions) | (mc::flip() ? mode_append : 0) | (mc::flip() ? mode_binary : 0) | (mc::flip() ? share_all : 0);
	int kind = (int)mc::choose(3); // constructor with a pointer, with a string, open()
	if (kind == 0 && !again) mode |= (int)mc::choose(16) << 12; // hints change nothing that can be seen
	mc::job();
	// A file that is only read and truncated on opening is not defined by POSIX.
	if (!(mode & mode_for_writing) && ((mode & mode_disposition_mask) == mode_truncate_existing || (mode & mode_disposition_mask) == mode_create)) return;
	bytes content = pre == 2 ? pattern(6) : bytes(), now;
	::unlink(p.c_str());
	if (pre) put(p, content);
	opened e = expect_open(pre != 0, content, mode);
	{
		std::string other = path("other");
		auto drop = [](F* x) { try { delete x; } catch (const std::system_error&) {} }; // pending data that could not be written
		std::unique_ptr<F, decltype(drop)> f(nullptr, drop);
		if (again == 2 && kind == 2) { f.reset(new F(path("nowhere").c_str(), mode_for_reading | mode_open_existing)); MC_CHECK(!*f && f->state() == state_t::fail, "open.result", "opening a file that does not exist left state %s", st_name(f->state())); }
		if (again == 1 && kind == 2) { put(other, pattern(3, 'x')); f.reset(new F(other.c_str(), mode_for_reading | mode_for_writing | mode_open_existing)); MC_CHECK(f->ok(), "open.result", "cannot open an existing file"); }
		if (kind == 0) f.reset(new F(p.c_str(), mode)); else if (kind == 1) f.reset(new F(p, mode)); else { if (!f) f.reset(new F()); f->open(p, mode); }
		std::string nm = mode_name(mode);
		MC_CHECK(!!*f == e.ok, "open.result", "%s of %s file: handle %svalid", nm.c_str(), !pre ? "no" : pre == 1 ? "an empty" : "a", *f ? "" : "in");
		MC_CHECK(f->state() == (e.ok ? state_t::ok : state_t::fail), "open.state", "%s of %s file leaves state %s", nm.c_str(), !pre ? "no" : pre == 1 ? "an empty" : "a", st_name(f->state()));
		bool there = get(p, now);
		MC_CHECK(there == (pre || e.ok) && (!there || now == (e.ok ? e.m.data : content)), "open.content", "%s leaves %s on disk", nm.c_str(), there ? show(now).c_str() : "nothing");
		if (!e.ok) {
			uint8_t b[2] = { 'Q', 'R' };
			if (!cached) {
				MC_CHECK(f->read(b, 1) == 0 && f->state() == state_t::fail, "open.closed", "reading a file that is not open gives state %s", st_name(f->state()));
				MC_CHECK(f->write(b, 1) == 0 && f->state() == state_t::fail, "open.closed", "writing a file that is not open gives state %s", st_name(f->state()));
			}
		}
		else {
			MC_CHECK(f->tell() == e.m.pos, "open.pos", "%s opens at %lld", nm.c_str(), (long long)f->tell());
			MC_CHECK(f->size() == e.m.data.size(), "open.size", "%s: size %lld", nm.c_str(), (long long)f->size());
			if (mode & mode_for_reading) {
				uint8_t b[8]; bytes w = e.m.read(4);
				size_t r = f->read(b, 4);
				MC_CHECK(r == w.size() && !memcmp(b, w.data(), r), "open.read", "%s: reads %zu bytes %s, expected %s", nm.c_str(), r, mc::quote(b, r).c_str(), show(w).c_str());
				MC_CHECK(f->state() == (r ? state_t::ok : state_t::eof), "open.read", "%s: reading %zu bytes leaves state %s", nm.c_str(), r, st_name(f->state()));
			}
			size_t r = f->write("QR", 2);
			if (mode & mode_for_writing) {
				e.m.write("QR", 2);
				MC_CHECK(r == 2 && f->ok(), "open.write", "%s: writes %zu, state %s", nm.c_str(), r, st_name(f->state()));
			}
			else if (!cached) MC_CHECK(r == 0 && f->state() == state_t::fail, "open.write", "%s: writes %zu, state %s", nm.c_str(), r, st_name(f->state()));
			else if (f->ok()) { f->flush(); MC_CHECK(f->state() == state_t::fail, "open.write", "%s: a write to a read-only file is reported as done", nm.c_str()); }
			try { f->close(); } catch (const std::system_error&) { MC_CHECK(cached && !(mode & mode_for_writing), "open.close", "%s: close() throws", nm.c_str()); }
			if (mode & mode_for_writing || !cached) MC_CHECK(f->ok() && !*f, "open.close", "%s: closing leaves state %s", nm.c_str(), st_name(f->state()));
			get(p, now);
			MC_CHECK(now == e.m.data, "open.written", "%s: %s on disk, expected %s", nm.c_str(), show(now).c_str(), show(e.m.data).c_str());
		}
		if (again == 1 && kind == 2) { get(other, now); MC_CHECK(now == pattern(3, 'x'), "open.other", "opening another file changed the one open before"); ::unlink(other.c_str()); }
	}
	::unlink(p.c_str());
	mc::transition(); mc::state(mc::hmix(e.m.h(), mode * 4 + pre)); mc::outcome(e.m.h() + e.ok); if (e.ok) mc::nontrivial();
}
MC_HARNESS(file_open) { open_case<file>(false); }
MC_HARNESS(cached_file_open) { open_case<cached_file>(true); }

// Sequences of operations. One file on disk per process, prepared and looked at through a descriptor that stays open.
static int kept(const std::string& p) { static int f = -1; static pid_t of; if (f < 0 || of != getpid()) { f = ::open(p.c_str(), O_RDWR | O_CREAT, 0644); of = getpid(); } return f; }
static void put_kept(const std::string& p, const bytes& b) { int f = kept(p); if (ftruncate(f, 0) < 0 || pwrite(f, b.data(), b.size(), 0) != (ssize_t)b.size()) mc::fail("environment", "cannot prepare %s", p.c_str()); }
static void get_kept(const std::string& p, bytes& b) { uint8_t d[64]; ssize_t n = pread(kept(p), d, sizeof d, 0); b.assign(d, d + (n < 0 ? 0 : n)); }
template <class F, class MK> static void ops_case(size_t depth, bool cached, MK make)
{
	std::string p = path("ops");
	size_t len = mc::choose(3) * 3;
	bool writable = !mc::flip();
	mc::set_deviation_bound(0);
	model_file m; m.data = pattern(len);
	std::unique_ptr<F> f;
	bool started = false, dirty_ro = false;
	uint8_t fill = 'A';
	for (size_t step = 0; step < depth; step++) {
		size_t op = mc::choose(14);
		if (step == 1 || depth == 1) mc::job();
		if (!started) {
			put_kept(p, m.data); f.reset(make(p, (writable ? mode_for_reading | mode_for_writing : mode_for_reading) | mode_open_existing)); started = true;
			MC_CHECK(f->ok(), "file.open", "cannot open");
		}
		uint8_t b[16]; bytes e; size_t r; static const size_t rn[] = { 1, 2, 5, 0 };
		bool seekfail;
		switch (op) {
		case 0: case 1: case 2: case 3:
			memset(b, '#', sizeof b);
			r = f->read(b, rn[op]); e = m.read(rn[op]);
			MC_LOG("read(%zu) -> %zu %s", rn[op], r, st_name(f->state()));
			MC_CHECK(r == e.size() && !memcmp(b, e.data(), r), "file.read", "read(%zu) at %llu gives %zu bytes %s, expected %s", rn[op], (unsigned long long)(m.pos - e.size()), r, mc::quote(b, r).c_str(), show(e).c_str());
			for (size_t i = rn[op]; i < sizeof b; i++) MC_CHECK(b[i] == '#', "file.read.overrun", "read(%zu) wrote byte %zu", rn[op], i);
			MC_CHECK(f->state() == (r || !rn[op] ? state_t::ok : state_t::eof), "file.read.state", "read(%zu) of %zu bytes leaves state %s", rn[op], r, st_name(f->state()));
			break;
		case 4: case 5: case 6: {
			size_t n = op == 4 ? 1 : op == 5 ? 3 : 0;
			for (size_t i = 0; i < n; i++) b[i] = fill++;
			r = f->write(b, n);
			MC_LOG("write(%zu) -> %zu %s", n, r, st_name(f->state()));
			if (writable) { m.write(b, n); MC_CHECK(r == n && f->ok(), "file.write", "write(%zu) at %llu writes %zu, state %s", n, (unsigned long long)m.pos, r, st_name(f->state())); }
			else if (!cached) MC_CHECK(!r && (f->state() == state_t::fail || !n), "file.write.ro", "write(%zu) to a read-only file writes %zu, state %s", n, r, st_name(f->state()));
			else if (n) {
				bool reported = !f->ok(), threw = false;
				f->flush(); MC_CHECK(reported || !f->ok(), "file.write.ro", "a write to a read-only file is reported as done");
				bool pending = !f->ok();
				try { delete f.release(); } catch (const std::system_error&) { threw = true; }
				MC_CHECK(threw == pending, "file.destroy.ro", "destroying the file %s", threw ? "throws for no reason" : "drops data silently");
				get_kept(p, e); MC_CHECK(e == m.data, "file.ro", "a read-only file changed");
				mc::outcome(threw * 2 + reported); return;
			}
			break; }
		case 7: case 8: case 9: {
			seek_t how = op == 7 ? seek_t::beg : op == 8 ? seek_t::cur : seek_t::end;
			static const foff_t so[3][4] = { { 0, 2, 4, 8 }, { -2, -1, 1, 3 }, { -4, -1, 0, 2 } };
			foff_t o = so[op - 7][mc::choose(4)];
			int64_t t = (int64_t)(how == seek_t::beg ? 0 : how == seek_t::cur ? m.pos : m.data.size()) + o;
			seekfail = t < 0;
			stdex::stream::fpos_t q; bool threw = false;
			try { q = f->seek(o, how); } catch (const std::invalid_argument&) { threw = true; }
			if (threw) { MC_CHECK(cached && seekfail, "file.seek.throws", "seek(%lld, %d) throws", (long long)o, (int)how); break; }
			MC_LOG("seek(%lld, %d) -> %lld %s", (long long)o, (int)how, (long long)q, st_name(f->state()));
			if (seekfail) MC_CHECK(f->state() == state_t::fail && q == fpos_max, "file.seek.fail", "seek(%lld, %d) before the start gives %lld, state %s", (long long)o, (int)how, (long long)q, st_name(f->state()));
			else { m.pos = (uint64_t)t; MC_CHECK(f->ok() && q == (stdex::stream::fpos_t)t, "file.seek", "seek(%lld, %d) gives %lld, state %s, expected %lld", (long long)o, (int)how, (long long)q, st_name(f->state()), (long long)t); }
			break; }
		case 10:
			f->truncate();
			MC_LOG("truncate -> %s", st_name(f->state()));
			if (writable) { m.data.resize((size_t)m.pos); MC_CHECK(f->ok(), "file.truncate", "truncate() leaves state %s", st_name(f->state())); }
			else MC_CHECK(f->state() == state_t::fail, "file.truncate.ro", "truncate() of a read-only file leaves state %s", st_name(f->state()));
			break;
		case 11:
			f->flush();
			MC_LOG("flush -> %s", st_name(f->state()));
			MC_CHECK(f->ok(), "file.flush", "flush() leaves state %s", st_name(f->state()));
			if (cached) { get_kept(p, e); MC_CHECK(e == m.data, "file.flushed", "after flush() %s is on disk, expected %s", show(e).c_str(), show(m.data).c_str()); }
			break;
		case 12:
			f->close();
			MC_LOG("close, open -> %s", st_name(f->state()));
			MC_CHECK(f->ok() && !*f, "file.close", "close() leaves state %s", st_name(f->state()));
			get_kept(p, e); MC_CHECK(e == m.data, "file.closed", "after close() %s is on disk, expected %s", show(e).c_str(), show(m.data).c_str());
			f->open(p, (writable ? mode_for_reading | mode_for_writing : mode_for_reading) | mode_preserve_existing);
			MC_CHECK(f->ok() && *f, "file.reopen", "cannot open again");
			m.pos = 0;
			break;
		case 13: {
			// The file open until now is written and closed; the new one is emptied.
			f->open(p, writable ? mode_for_reading | mode_for_writing | mode_truncate_existing : mode_for_reading | mode_open_existing | mode_append);
			MC_LOG("open -> %s", st_name(f->state()));
			MC_CHECK(f->ok() && *f, "file.open.again", "cannot open while open");
			if (writable) m.data.clear();
			m.pos = m.data.size();
			break; }
		}
		if (op != 12 && op != 11) MC_LOG("   at %llu of %zu", (unsigned long long)m.pos, m.data.size());
		MC_CHECK(f->tell() == m.pos, "file.tell", "at %lld, expected %llu", (long long)f->tell(), (unsigned long long)m.pos);
		MC_CHECK(f->size() == m.data.size(), "file.size", "size %lld, expected %zu", (long long)f->size(), m.data.size());
		if (!cached) { get_kept(p, e); MC_CHECK(e == m.data, "file.content", "%s on disk, expected %s", show(e).c_str(), show(m.data).c_str()); }
		mc::transition(); mc::state(m.h());
	}
	f.reset();
	bytes e; get_kept(p, e);
	MC_CHECK(e == m.data, "file.destroyed", "after the end %s is on disk, expected %s", show(e).c_str(), show(m.data).c_str());
	mc::outcome(m.h()); if (m.data != pattern(len)) mc::nontrivial();
}
MC_HARNESS(file_ops) { ops_case<file>(mc::thorough() ? 5 : 4, false, [](const std::string& p, int mode) { return new file(p, mode); }); }
MC_HARNESS(cached_file_ops)
{
	size_t block = 1 + mc::choose(4);
	ops_case<cached_file>(mc::thorough() ? 5 : block == 3 ? 4 : 3, true, [block](const std::string& p, int mode) { return new cached_file(p, mode, block); });
}

// Ranges locked, as another opener of the file sees them.
template <class F> static void locks_case()
{
	std::string p = path("lock");
	size_t n = mc::thorough() ? 4 : 3; bool ro = mc::flip(), closed = !ro && mc::flip(); size_t at = mc::choose(3);
	struct step { bool unlock; size_t off, len; } st[4];
	if (ro || closed) n = 1;
	for (size_t i = 0; i < n; i++) st[i] = { mc::flip(), mc::choose(4), mc::choose(4) };
	mc::job();
	put(p, pattern(5));
	int probe = ::open(p.c_str(), O_RDWR);
	F f(p, ro ? mode_for_reading : mode_for_reading | mode_for_writing);
	f.seek((foff_t)at);
	if (at == 2 && !closed) { uint8_t b[8]; f.read(b, 8); f.read(b, 8); MC_CHECK(f.state() == state_t::eof, "lock.eof", "reading past the end leaves state %s", st_name(f.state())); at = 5; } // the state of an earlier operation does not stay
	if (closed) f.close();
	bool held[10] = {};
	for (size_t i = 0; i < n; i++) {
		if (st[i].unlock) f.unlock(st[i].off, st[i].len); else f.lock(st[i].off, st[i].len);
		MC_LOG("%s(%zu, %zu) -> %s", st[i].unlock ? "unlock" : "lock", st[i].off, st[i].len, st_name(f.state()));
		if (closed || (ro && !st[i].unlock)) { MC_CHECK(f.state() == state_t::fail, "lock.fail", "%s(%zu, %zu) of a %s file leaves state %s", st[i].unlock ? "unlock" : "lock", st[i].off, st[i].len, ro ? "read-only" : "closed", st_name(f.state())); }
		else {
			MC_CHECK(f.ok(), "lock.state", "%s(%zu, %zu) leaves state %s", st[i].unlock ? "unlock" : "lock", st[i].off, st[i].len, st_name(f.state()));
			for (size_t k = st[i].off; k < 10; k++) if (!st[i].len || k < st[i].off + st[i].len) held[k] = !st[i].unlock;
		}
		if (!closed) MC_CHECK(f.tell() == at, "lock.pos", "the file is at %lld after %s()", (long long)f.tell(), st[i].unlock ? "unlock" : "lock");
		for (size_t k = 0; k < 10; k++) {
			struct flock fl; memset(&fl, 0, sizeof fl); fl.l_type = F_WRLCK; fl.l_whence = SEEK_SET; fl.l_start = (off_t)k; fl.l_len = 1;
			if (fcntl(probe, F_OFD_GETLK, &fl) < 0) mc::fail("environment", "F_OFD_GETLK fails");
			MC_CHECK((fl.l_type != F_UNLCK) == held[k], "lock.range", "byte %zu is %slocked after step %zu", k, held[k] ? "not " : "", i);
		}
		mc::transition(); mc::state(mc::hash(held, sizeof held));
	}
	mc::outcome(mc::hash(held, sizeof held)); mc::nontrivial();
	f.close(); ::close(probe); ::unlink(p.c_str());
}
MC_HARNESS(file_locks) { locks_case<file>(); }
MC_HARNESS(cached_file_locks) { locks_case<cached_file>(); }

// Times, existence and protection.
MC_HARNESS(file_attributes)
{
	std::string p = path("attr");
	static const long long secs[] = { -2208988800ll, -86401, -1, 0, 1, 59, 86400, 951782400, 1700000000, 2147483647, 2147483648ll, 4102444800ll };
	long long a = mc::pick(secs), b = mc::pick(secs); bool amode = mc::flip(); unsigned mode = (unsigned)mc::choose(8);
	mc::job();
	typedef std::chrono::system_clock C;
	::unlink(p.c_str());
	MC_CHECK(!file::exists(p) && !file::exists(p.c_str()) && !file::readonly(p) && !file::readonly(p.c_str()), "attr.exists", "a missing file exists or is read-only");
	put(p, pattern(2));
	unsigned bits = (mode & 1 ? S_IWUSR : 0) | (mode & 2 ? S_IWGRP : 0) | (mode & 4 ? S_IWOTH : 0);
	::chmod(p.c_str(), 0444 | bits);
	MC_CHECK(file::exists(p) && file::exists(p.c_str()), "attr.exists", "a file does not exist");
	MC_CHECK(file::readonly(p) == !bits && file::readonly(p.c_str()) == !bits, "attr.readonly", "a file of mode %o is %sread-only", 0444 | bits, bits ? "" : "not ");
	::chmod(p.c_str(), 0644);
	file f(p, mode_for_reading | mode_for_writing);
	auto ta = C::from_time_t((time_t)a), tb = C::from_time_t((time_t)b);
	if (amode) { f.set_atime(ta); f.set_mtime(tb); } else { f.set_mtime(tb); f.set_atime(ta); }
	MC_CHECK(f.atime() == ta, "attr.atime", "atime() is %lld after set_atime(%lld)", (long long)C::to_time_t(f.atime()), a);
	MC_CHECK(f.mtime() == tb, "attr.mtime", "mtime() is %lld after set_mtime(%lld)", (long long)C::to_time_t(f.mtime()), b);
	struct stat s; ::stat(p.c_str(), &s);
	MC_CHECK(s.st_atime == a && s.st_mtime == b, "attr.stat", "the file system has %lld and %lld, expected %lld and %lld", (long long)s.st_atime, (long long)s.st_mtime, a, b);
	// Setting one leaves the other, and fractions of a second do not spill over.
	f.set_atime(ta + std::chrono::milliseconds(a < 0 ? 0 : 999)); // before the epoch the direction of rounding is the library's
	::stat(p.c_str(), &s);
	MC_CHECK(s.st_atime == a && s.st_mtime == b, "attr.stat", "the file system has %lld and %lld, expected %lld and %lld", (long long)s.st_atime, (long long)s.st_mtime, a, b);
	// Through a cache it is the same file.
	f.close();
	{
		cached_file c(p, mode_for_reading | mode_for_writing);
		if (amode) { c.set_atime(tb); c.set_mtime(ta); } else { c.set_mtime(ta); c.set_atime(tb); }
		MC_CHECK(c.ok() && c.atime() == tb && c.mtime() == ta, "attr.cached", "a cached file has %lld and %lld after setting %lld and %lld", (long long)C::to_time_t(c.atime()), (long long)C::to_time_t(c.mtime()), b, a);
		::stat(p.c_str(), &s);
		MC_CHECK(s.st_atime == b && s.st_mtime == a, "attr.stat", "the file system has %lld and %lld, expected %lld and %lld", (long long)s.st_atime, (long long)s.st_mtime, b, a);
		c.close();
	}
	::unlink(p.c_str());
	mc::transition(); mc::state(mc::hmix((uint64_t)a, b)); mc::outcome(mode); mc::nontrivial();
}
