// Streams over the operating system: every system call made for a simulated descriptor may fail or be cut short, and
// the simulated kernel knows what really happened. The calls are redirected by the linker (--wrap).
#include "common.h"
#include <stdex/socket.hpp>
#include <fcntl.h>
#include <map>
#include <unistd.h>
#include <sys/socket.h>
using namespace stdex::stream;

namespace {
	struct inode { bytes data; bool stream = false; bytes sent; };
	struct description { inode* node; uint64_t pos = 0; };
	enum { base = 100000 };
	struct kernel {
		std::map<std::string, inode> fs;
		std::map<int, std::shared_ptr<description>> fds;
		int next = base;
		bool faults = false, shorts = false, double_fault = true, used_closed = false;
		std::string wrong;
		// of the current operation
		size_t calls = 0, errors = 0, moved = 0, restore_errors = 0; bool last_error = false, last_zero = false; bytes moved_data; bytes log;
		size_t all_errors = 0;
		bool phantom = false; uint64_t left = 0, through = 0; const uint8_t* want = nullptr; // nothing is really moved
		ssize_t pass(const void* p, size_t n, char c) {
			if (err(c)) return -1;
			size_t m = (size_t)std::min<uint64_t>(std::min<size_t>(n, 0x7ffff000), left); // as much as Linux does at once
			if (m > 4096 && shorts && mc::choose_dev(2)) m -= 4096;
			if (m && (const uint8_t*)p != want) wrong = mc::str("%zu bytes are %s %lld bytes away from where they belong", m, c == 'r' ? "read" : "written", (long long)((intptr_t)p - (intptr_t)want));
			want += m; left -= m; through += m; last_zero = n && !m;
			return (ssize_t)m;
		}
		void begin() { calls = errors = moved = 0; last_error = last_zero = false; moved_data.clear(); log.clear(); }
		bool err(char c) { ++calls; log.push_back((uint8_t)c); last_error = last_zero = false; if (faults && mc::choose_dev(2)) { MC_LOG("    kernel: %c fails", c); ++errors; ++all_errors; last_error = true; log.back() = (uint8_t)(c - 32); errno = EIO; return true; } return false; }
		description* get(int fd, const char* what) { auto i = fds.find(fd); if (i == fds.end()) { wrong = mc::str("%s of descriptor %d that is not open", what, fd - base); errno = EBADF; return nullptr; } return i->second.get(); }
		int add(const std::shared_ptr<description>& d) { fds[next] = d; return next++; } // numbers are not used again: mistakes show
		int open(inode& n) { auto d = std::make_shared<description>(); d->node = &n; return add(d); }
		size_t cut(size_t n) { if (shorts && n > 1) { size_t c = mc::choose_dev(2); if (c) { MC_LOG("    kernel: %zu cut short", n); return 1; } } return n; }
		ssize_t read(int fd, void* p, size_t n) {
			auto d = get(fd, "read"); if (!d) { ++errors; last_error = true; return -1; }
			if (phantom) return pass(p, n, 'r');
			if (err('r')) return -1;
			if (!n) return 0;
			if (d->pos >= d->node->data.size()) { last_zero = true; return 0; }
			size_t m = cut((size_t)std::min<uint64_t>(n, d->node->data.size() - d->pos));
			memcpy(p, d->node->data.data() + d->pos, m); d->pos += m; moved += m;
			moved_data.insert(moved_data.end(), (uint8_t*)p, (uint8_t*)p + m);
			return (ssize_t)m;
		}
		ssize_t write(int fd, const void* p, size_t n) {
			auto d = get(fd, "write"); if (!d) { ++errors; last_error = true; return -1; }
			if (phantom) return pass(p, n, 'w');
			if (err('w')) return -1;
			size_t m = cut(n); if (!m) return 0;
			moved += m; moved_data.insert(moved_data.end(), (uint8_t*)p, (uint8_t*)p + m);
			if (d->node->stream) d->node->sent.insert(d->node->sent.end(), (uint8_t*)p, (uint8_t*)p + m);
			else { if (d->node->data.size() < d->pos + m) d->node->data.resize(d->pos + m); memcpy(d->node->data.data() + d->pos, p, m); d->pos += m; }
			return (ssize_t)m;
		}
	};
	kernel* K;
	struct kernel_scope { kernel k; kernel_scope() { K = &k; } ~kernel_scope() { K = nullptr; } };
	bool sim(int fd) { return K && fd >= base; }
}

extern "C" {
	ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_close(int); int __real_fsync(int);
	off64_t __real_lseek64(int, off64_t, int); int __real_ftruncate64(int, off64_t); int __real_lockf64(int, int, off64_t); int __real_dup(int);
	ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_send(int, const void*, size_t, int); int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...);
	ssize_t __wrap_read(int fd, void* p, size_t n) { return sim(fd) ? K->read(fd, p, n) : __real_read(fd, p, n); }
	ssize_t __wrap_write(int fd, const void* p, size_t n) { return sim(fd) ? K->write(fd, p, n) : __real_write(fd, p, n); }
	ssize_t __wrap_recv(int fd, void* p, size_t n, int f) { return sim(fd) ? K->read(fd, p, n) : __real_recv(fd, p, n, f); }
	ssize_t __wrap_send(int fd, const void* p, size_t n, int f) { return sim(fd) ? K->write(fd, p, n) : __real_send(fd, p, n, f); }
	int __wrap_close(int fd)
	{
		if (!sim(fd)) return __real_close(fd);
		if (!K->get(fd, "close")) return -1;
		K->fds.erase(fd); // an error does not keep it open (Linux)
		return (K->double_fault || !K->errors) && K->err('c') ? -1 : 0;
	}
	int __wrap_fsync(int fd) { if (!sim(fd)) return __real_fsync(fd); return !K->get(fd, "fsync") || K->err('f') ? -1 : 0; }
	off64_t __wrap_lseek64(int fd, off64_t o, int how)
	{
		if (!sim(fd)) return __real_lseek64(fd, o, how);
		auto d = K->get(fd, "lseek"); if (!d) { ++K->errors; return -1; }
		if (K->err('s')) return -1;
		int64_t t = (int64_t)(how == SEEK_SET ? 0 : how == SEEK_CUR ? d->pos : d->node->data.size()) + o;
		if (t < 0) { ++K->errors; errno = EINVAL; return -1; }
		d->pos = (uint64_t)t; return t;
	}
	int __wrap_ftruncate64(int fd, off64_t n) { if (!sim(fd)) return __real_ftruncate64(fd, n); auto d = K->get(fd, "ftruncate"); if (!d || K->err('t')) return -1; d->node->data.resize((size_t)n); return 0; }
	int __wrap_lockf64(int fd, int c, off64_t n) { if (!sim(fd)) return __real_lockf64(fd, c, n); return !K->get(fd, "lockf") || K->err('l') ? -1 : 0; }
	int __wrap_dup(int fd) { if (!sim(fd)) return __real_dup(fd); if (!K->get(fd, "dup")) return -1; if (K->err('d')) return -1; return K->add(K->fds[fd]); }
	static int sim_open(const char* p, int fl)
	{
		if (K->err('o')) return -1;
		auto i = K->fs.find(p);
		if (i == K->fs.end()) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } i = K->fs.emplace(p, inode()).first; }
		if (fl & O_TRUNC) i->second.data.clear();
		return K->open(i->second);
	}
	int __wrap_open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return K && !strncmp(p, "sim:", 4) ? sim_open(p, fl) : __real_open(p, fl, m); }
	int __wrap_open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return K && !strncmp(p, "sim:", 4) ? sim_open(p, fl) : __real_open64(p, fl, m); }
}

// The first two operations make up the job prefix: nothing is created before they are chosen.
struct plan { size_t n, first[2]; size_t i = 0; plan(size_t n) : n(n) { first[0] = mc::choose(n); first[1] = mc::choose(n); mc::job(); } size_t next() { return i < 2 ? first[i++] : mc::choose(n); } };
static void sane() { MC_CHECK(K->wrong.empty(), "descriptor", "%s", K->wrong.c_str()); }

// One stream, one descriptor: what is said of every call is what the kernel did.
template <class S> static void rw_op(S& s, inode& n, uint8_t& fill, size_t op)
{
	uint8_t b[16]; static const size_t sz[] = { 1, 3, 7, 0 };
	K->begin();
	if (op < 4) {
		memset(b, '#', sizeof b);
		size_t r = s.read(b, sz[op]);
		MC_LOG("read(%zu) -> %zu %s", sz[op], r, st_name(s.state()));
		MC_CHECK(r == K->moved && !memcmp(b, K->moved_data.data(), r), "read", "read(%zu) returns %zu bytes %s, the system gave %s", sz[op], r, mc::quote(b, r).c_str(), show(K->moved_data).c_str());
		for (size_t i = sz[op]; i < sizeof b; i++) MC_CHECK(b[i] == '#', "read.overrun", "read(%zu) wrote byte %zu", sz[op], i);
		state_t e = r == sz[op] && !(K->last_error && !sz[op]) ? state_t::ok : r ? state_t::ok : K->last_error ? state_t::fail : state_t::eof;
		MC_CHECK(s.state() == e, "read.state", "read(%zu) of %zu bytes leaves state %s after the system said %s", sz[op], r, st_name(s.state()), K->last_error ? "error" : K->last_zero ? "end" : "data");
		MC_CHECK(r == sz[op] || K->last_error || K->last_zero, "read.short", "read(%zu) returns %zu although the system had more", sz[op], r);
	}
	else {
		size_t w = sz[op - 4];
		for (size_t i = 0; i < w; i++) b[i] = fill++;
		bytes all(b, b + w);
		size_t r = s.write(b, w);
		MC_LOG("write(%zu) -> %zu %s", w, r, st_name(s.state()));
		MC_CHECK(r == K->moved && sub(all, 0, r) == K->moved_data, "write", "write(%zu) returns %zu, the system took %s", w, r, show(K->moved_data).c_str());
		MC_CHECK(s.state() == (K->last_error ? state_t::fail : state_t::ok), "write.state", "write(%zu) of %zu bytes leaves state %s", w, r, st_name(s.state()));
		MC_CHECK(r == w || K->last_error, "write.short", "write(%zu) stops at %zu without an error", w, r);
	}
	sane(); mc::transition(); mc::state(mc::hmix(mc::hash(n.data.data(), n.data.size()), mc::hash(n.sent.data(), n.sent.size())));
}
template <class S> static void stream_case(size_t depth)
{
	kernel_scope ks; kernel& k = ks.k;
	inode n; n.stream = true; n.data = pattern(8);
	k.faults = k.shorts = true; mc::set_deviation_bound(mc::thorough() ? 4 : 3);
	uint8_t fill = 'A';
	{
		struct holder { S s; holder(int h) : s(h) {} ~holder() noexcept(false) {} };
		std::unique_ptr<holder> h;
		plan pl(10);
		for (size_t i = 0; i < depth; i++) {
			size_t op = pl.next();
			if (!h) h.reset(new holder(k.open(n)));
			if (op < 8) { rw_op(h->s, n, fill, op); continue; }
			if (op == 8) {
				k.begin(); h->s.flush(); MC_LOG("flush -> %s", st_name(h->s.state()));
				MC_CHECK(k.calls == 0 || (h->s.state() == state_t::fail) == (k.errors > 0), "flush", "flush() leaves state %s after fsync() %s", st_name(h->s.state()), k.errors ? "failed" : "succeeded");
				sane();
				continue;
			}
			k.begin(); h->s.close(); MC_LOG("close -> %s", st_name(h->s.state()));
			MC_CHECK(!h->s && k.fds.empty(), "close", "close() leaves the stream open");
			if (std::is_base_of<basic_sys, S>::value) MC_CHECK(h->s.state() == (k.errors ? state_t::fail : state_t::ok), "close.state", "close() leaves state %s after the system's close %s", st_name(h->s.state()), k.errors ? "failed" : "succeeded");
			sane();
			break;
		}
		k.begin();
		bool threw = false;
		holder* raw = h.release();
		try { delete raw; } catch (const std::system_error&) { threw = true; }
		MC_CHECK(!threw || k.errors, "destroy", "the destructor throws for no reason");
		sane(); MC_CHECK(k.fds.empty(), "leak", "the descriptor is still open after the stream is gone");
	}
	mc::outcome(mc::hmix(mc::hash(n.sent.data(), n.sent.size()), k.all_errors)); if (mc::deviations()) mc::nontrivial();
}
MC_HARNESS(sys_stream) { stream_case<basic_sys>(mc::thorough() ? 5 : 4); }
MC_HARNESS(socket_stream) { stream_case<stdex::stream::socket>(mc::thorough() ? 5 : 4); }

// Transfers of gigabytes: the pieces add up and follow each other in memory.
template <class S> static void far_case()
{
	static const uint64_t ns[] = { 0x7ffff001, (uint64_t)1 << 31, 0xffffffff, (uint64_t)1 << 32, ((uint64_t)1 << 32) + 5, ((uint64_t)1 << 33) + 1 };
	kernel_scope ks; kernel& k = ks.k; inode n; n.stream = true;
	bool w = mc::flip(), ends = mc::flip(); uint64_t first = mc::pick(ns);
	mc::job();
	k.faults = k.shorts = k.phantom = true; k.double_fault = false; mc::set_deviation_bound(mc::thorough() ? 3 : 2);
	k.left = ends ? first - 7 : UINT64_MAX; if (w) k.left = UINT64_MAX;
	{
		S s(k.open(n));
		static uint8_t anchor[1];
		for (size_t i = 0; i < 2; i++) {
			uint64_t len = i ? mc::pick(ns) : first, before = k.through, e = std::min(len, k.left); k.begin(); k.want = anchor;
			size_t r = w ? s.write(anchor, (size_t)len) : s.read(anchor, (size_t)len);
			MC_LOG("%s(%llx) -> %llx %s", w ? "write" : "read", (unsigned long long)len, (unsigned long long)r, st_name(s.state()));
			sane();
			MC_CHECK(r == k.through - before, "far.count", "%s(%llx) returns %llx, the system moved %llx", w ? "write" : "read", (unsigned long long)len, (unsigned long long)r, (unsigned long long)(k.through - before));
			MC_CHECK(r == e || k.errors, "far.short", "%s(%llx) returns %llx without an error", w ? "write" : "read", (unsigned long long)len, (unsigned long long)r);
			if (w) MC_CHECK(s.ok() == (r == len), "far.state", "write(%llx) returns %llx, state %s", (unsigned long long)len, (unsigned long long)r, st_name(s.state()));
			else MC_CHECK(s.state() == (r ? state_t::ok : k.last_error ? state_t::fail : state_t::eof), "far.state", "read(%llx) returns %llx, state %s", (unsigned long long)len, (unsigned long long)r, st_name(s.state()));
			mc::transition(); mc::state(mc::hmix(k.through, i));
		}
		k.faults = false;
	}
	mc::outcome(mc::hmix(k.through, k.all_errors)); if (mc::deviations()) mc::nontrivial();
}
MC_HARNESS(sys_far) { far_case<basic_sys>(); }
MC_HARNESS(socket_far) { far_case<stdex::stream::socket>(); }

MC_HARNESS(file_calls)
{
	kernel_scope ks; kernel& k = ks.k;
	inode n; n.data = pattern(6);
	k.faults = k.shorts = true; mc::set_deviation_bound(mc::thorough() ? 3 : 2);
	uint8_t fill = 'A';
	size_t depth = mc::thorough() ? 5 : 4;
	{
		std::unique_ptr<file> f; description* d = nullptr;
		plan pl(16);
		for (size_t i = 0; i < depth; i++) {
			size_t op = pl.next();
			if (!f) { int h = k.open(n); d = k.fds[h].get(); f.reset(new file(h)); }
			uint64_t before = d->pos; bytes content = n.data;
			if (op < 8) { rw_op(*f, n, fill, op); continue; }
			k.begin();
			switch (op) {
			case 8: case 9: case 10: {
				seek_t how = op == 8 ? seek_t::beg : op == 9 ? seek_t::cur : seek_t::end; foff_t o = op == 8 ? 4 : op == 9 ? -2 : 1;
				auto q = f->seek(o, how); MC_LOG("seek(%lld, %d) -> %lld %s", (long long)o, (int)how, (long long)q, st_name(f->state()));
				MC_CHECK(f->state() == (k.errors ? state_t::fail : state_t::ok) && q == (k.errors ? fpos_max : d->pos), "seek", "seek() gives %lld, state %s", (long long)q, st_name(f->state()));
				MC_CHECK(k.errors || d->pos == (uint64_t)(o + (int64_t)(op == 8 ? 0 : op == 9 ? before : content.size())), "seek.pos", "seek(%lld, %d) from %llu arrives at %llu", (long long)o, (int)how, (unsigned long long)before, (unsigned long long)d->pos);
				break; }
			case 11: {
				auto q = f->tell(); MC_LOG("tell -> %lld", (long long)q);
				MC_CHECK(q == (k.errors ? fpos_max : before) && d->pos == before, "tell", "tell() at %llu gives %lld", (unsigned long long)before, (long long)q);
				break; }
			case 12: {
				auto q = f->size(); MC_LOG("size -> %lld", (long long)q);
				bool restore_failed = !k.log.empty() && k.log.size() >= 3 && k.log.back() == 'S';
				if (k.errors && !(k.errors == 1 && restore_failed)) MC_CHECK(q == fsize_max, "size.fail", "size() gives %lld although the system failed", (long long)q);
				else MC_CHECK(q == n.data.size() || (restore_failed && q == fsize_max), "size", "size() of %zu bytes gives %lld", n.data.size(), (long long)q);
				if (!restore_failed) MC_CHECK(d->pos == before, "size.pos", "size() moved the file from %llu to %llu", (unsigned long long)before, (unsigned long long)d->pos);
				else d->pos = before;
				break; }
			case 13:
				f->truncate(); MC_LOG("truncate -> %s", st_name(f->state()));
				MC_CHECK(f->state() == (k.errors ? state_t::fail : state_t::ok), "truncate", "truncate() leaves state %s after %zu errors", st_name(f->state()), k.errors);
				content.resize(k.errors ? content.size() : (size_t)before);
				MC_CHECK(n.data == content && d->pos == before, "truncate.content", "truncate() leaves %s", show(n.data).c_str());
				break;
			case 14: case 15: {
				bool un = op == 15;
				if (un) f->unlock(1, 2); else f->lock(1, 2);
				MC_LOG("%s -> %s", un ? "unlock" : "lock", st_name(f->state()));
				bool restore_failed = k.log.size() >= 3 && k.log.back() == 'S';
				size_t real = k.errors - restore_failed;
				if (real) MC_CHECK(f->state() == state_t::fail, "lock.state", "%s() leaves state %s although the system failed", un ? "unlock" : "lock", st_name(f->state()));
				else if (!restore_failed) MC_CHECK(f->ok(), "lock.state", "%s() leaves state %s", un ? "unlock" : "lock", st_name(f->state()));
				if (!restore_failed) MC_CHECK(d->pos == before, "lock.pos", "%s() moved the file from %llu to %llu", un ? "unlock" : "lock", (unsigned long long)before, (unsigned long long)d->pos);
				else d->pos = before;
				break; }
			}
			if (op != 13) MC_CHECK(n.data == content, "content", "the file changed");
			sane(); mc::transition(); mc::state(mc::hmix(mc::hash(n.data.data(), n.data.size()), d->pos));
		}
		k.faults = false;
	}
	mc::outcome(mc::hmix(mc::hash(n.data.data(), n.data.size()), k.all_errors)); if (mc::deviations()) mc::nontrivial();
}

// Buffering and caching over descriptors: nothing reported as done is missing.
MC_HARNESS(buffered_sys_calls)
{
	kernel_scope ks; kernel& k = ks.k;
	inode n; n.stream = true; n.data = pattern(9);
	size_t rb = mc::choose(3) * 2, wb = mc::choose(3) * 2;
	k.faults = k.shorts = true; mc::set_deviation_bound(mc::thorough() ? 3 : 2);
	size_t depth = mc::thorough() ? 5 : 4;
	uint8_t fill = 'A'; bytes accepted, got; bool reported = false;
	buffered_sys* s = nullptr;
	plan pl(7);
	for (size_t i = 0; i < depth; i++) {
		size_t op = pl.next(); static const size_t sz[] = { 1, 3, 5 };
		if (!s) s = new buffered_sys(k.open(n), rb, wb);
		k.begin();
		if (op < 3) {
			uint8_t b[8]; size_t r = s->read(b, sz[op]);
			MC_LOG("read(%zu) -> %zu %s", sz[op], r, st_name(s->state()));
			got.insert(got.end(), b, b + r);
			MC_CHECK(got == sub(n.data, 0, got.size()), "buffered.read", "what was read is %s", show(got).c_str());
			if (!r) MC_CHECK(s->state() == (k.last_error ? state_t::fail : state_t::eof), "buffered.read.state", "nothing read leaves state %s", st_name(s->state()));
			else MC_CHECK(s->ok(), "buffered.read.state", "read(%zu) of %zu bytes leaves state %s", sz[op], r, st_name(s->state()));
		}
		else if (op < 6) {
			uint8_t b[8]; size_t w = sz[op - 3]; for (size_t j = 0; j < w; j++) b[j] = fill++;
			size_t r = s->write(b, w);
			MC_LOG("write(%zu) -> %zu %s", w, r, st_name(s->state()));
			MC_CHECK(r <= w && s->ok() == (r == w), "buffered.write", "write(%zu) returns %zu, state %s", w, r, st_name(s->state()));
			MC_CHECK((k.errors > 0) == (r < w), "buffered.write.error", "write(%zu) returns %zu after %zu errors", w, r, k.errors);
			accepted.insert(accepted.end(), b, b + r); if (r < w) reported = true;
		}
		else {
			s->flush();
			MC_LOG("flush -> %s", st_name(s->state()));
			MC_CHECK((k.errors > 0) == !s->ok(), "buffered.flush", "flush() leaves state %s after %zu errors", st_name(s->state()), k.errors);
			if (s->ok()) MC_CHECK(n.sent == accepted, "buffered.flushed", "after flush() the system has %s of %s", show(n.sent).c_str(), show(accepted).c_str());
		}
		MC_CHECK(n.sent == sub(accepted, 0, n.sent.size()), "buffered.order", "the system got %s, written was %s", show(n.sent).c_str(), show(accepted).c_str());
		sane(); mc::transition(); mc::state(mc::hmix(mc::hash(n.sent.data(), n.sent.size()), got.size()));
	}
	k.begin(); bool close = mc::flip(), ok = true;
	if (close) { s->close(); ok = s->ok(); MC_CHECK(ok == !k.errors, "buffered.close", "close() leaves state %s after %zu errors", st_name(s->state()), k.errors); MC_CHECK(k.fds.empty(), "buffered.close", "close() leaves the descriptor open"); if (ok) MC_CHECK(n.sent == accepted, "buffered.closed", "after close() the system has %s of %s", show(n.sent).c_str(), show(accepted).c_str()); }
	else k.faults = false; // what the destructor meets it cannot report
	sane();
	try { delete s; } catch (const std::system_error&) { MC_CHECK(k.errors, "buffered.destroy", "the destructor throws for no reason"); }
	if (!close) MC_CHECK(n.sent == accepted, "buffered.destroyed", "after the end the system has %s of %s", show(n.sent).c_str(), show(accepted).c_str());
	sane(); MC_CHECK(k.fds.empty(), "leak", "the descriptor is still open");
	(void)reported; mc::outcome(mc::hmix(mc::hash(n.sent.data(), n.sent.size()), k.all_errors)); if (mc::deviations()) mc::nontrivial();
}

MC_HARNESS(cached_file_calls)
{
	kernel_scope ks; kernel& k = ks.k;
	inode n; n.data = pattern(6);
	k.shorts = true; mc::set_deviation_bound(mc::thorough() ? 3 : 2);
	size_t depth = mc::thorough() ? 5 : 4, block = 3;
	uint8_t fill = 'A'; model_file m; m.data = n.data; bool reported = false;
	std::unique_ptr<cached_file> f;
	plan pl(10);
	for (size_t i = 0; i < depth && !reported; i++) {
		size_t op = pl.next();
		if (!f) { f.reset(new cached_file(k.open(n), state_t::ok, block)); k.faults = true; }
		k.begin(); uint8_t b[8]; static const size_t sz[] = { 1, 4, 7 };
		bool threw = false;
		if (op < 3) {
			size_t r = f->read(b, sz[op]); bytes e = m.read(sz[op]);
			MC_LOG("read(%zu) -> %zu %s", sz[op], r, st_name(f->state()));
			MC_CHECK(!memcmp(b, e.data(), std::min(r, e.size())) && r <= e.size(), "cached.read", "read(%zu) gives %s, expected %s", sz[op], mc::quote(b, r).c_str(), show(e).c_str());
			if (r < e.size()) { MC_CHECK(k.errors && (r || f->state() == state_t::fail), "cached.read.short", "read(%zu) gives %zu of %zu bytes, state %s", sz[op], r, e.size(), st_name(f->state())); m.pos -= e.size() - r; }
			else if (!r) MC_CHECK(f->state() == state_t::eof || (k.errors && f->state() == state_t::fail), "cached.read.state", "read at the end leaves state %s", st_name(f->state()));
		}
		else if (op < 6) {
			size_t w = sz[op - 3]; for (size_t j = 0; j < w; j++) b[j] = fill++;
			size_t r = f->write(b, w);
			MC_LOG("write(%zu) -> %zu %s", w, r, st_name(f->state()));
			MC_CHECK(r <= w && (r == w) == f->ok(), "cached.write", "write(%zu) returns %zu, state %s", w, r, st_name(f->state()));
			if (r < w) { MC_CHECK(k.errors, "cached.write.short", "write(%zu) returns %zu without an error", w, r); reported = true; }
			m.write(b, r);
		}
		else if (op == 6) { f->seek(4); m.pos = 4; MC_LOG("seek(4) -> %s", st_name(f->state())); MC_CHECK(f->ok(), "cached.seek", "seek() leaves state %s", st_name(f->state())); }
		else if (op == 7) { f->truncate(); MC_LOG("truncate -> %s", st_name(f->state())); if (f->ok()) m.data.resize((size_t)m.pos); else { MC_CHECK(k.errors, "cached.truncate", "truncate() fails for no reason"); reported = true; } }
		else if (op == 8) { auto q = f->size(); MC_LOG("size -> %lld", (long long)q); MC_CHECK(q == m.data.size() || k.errors, "cached.size", "size() gives %lld, expected %zu", (long long)q, m.data.size()); }
		else { f->flush(); MC_LOG("flush -> %s", st_name(f->state())); if (f->ok()) MC_CHECK(n.data == m.data && !k.errors, "cached.flushed", "after flush() the file holds %s, expected %s", show(n.data).c_str(), show(m.data).c_str()); else { MC_CHECK(k.errors, "cached.flush", "flush() fails for no reason"); reported = true; } }
		(void)threw; sane(); mc::transition(); mc::state(m.h());
	}
	k.begin();
	bool threw = false, closed = false;
	if (mc::flip()) {
		try { f->close(); closed = true; MC_CHECK(f->ok() || k.errors, "cached.close", "close() fails for no reason"); if (!f->ok()) reported = true; }
		catch (const std::system_error&) { threw = true; MC_CHECK(k.errors || reported, "cached.close", "close() throws for no reason"); }
		if (!threw && !reported) MC_CHECK(n.data == m.data, "cached.closed", "after close() the file holds %s, expected %s", show(n.data).c_str(), show(m.data).c_str());
	}
	k.double_fault = false; // two exceptions at once end any program
	try { delete f.release(); } catch (const std::system_error&) { MC_CHECK(k.errors || reported, "cached.destroy", "the destructor throws for no reason"); threw = true; }
	if (!threw && !reported) MC_CHECK(n.data == m.data, "cached.destroyed", "after the end the file holds %s, expected %s", show(n.data).c_str(), show(m.data).c_str());
	sane(); MC_CHECK(k.fds.empty(), "leak", "the descriptor is still open");
	(void)closed; mc::outcome(mc::hmix(mc::hash(n.data.data(), n.data.size()), k.all_errors)); if (mc::deviations()) mc::nontrivial();
}

// Copying between files, loading and saving.
MC_HARNESS(file_copies)
{
	kernel_scope ks; kernel& k = ks.k;
	size_t len = mc::choose(4) * 3, old = mc::choose(3) * 6, kind = mc::choose(3); // copy, load, save
	mc::job();
	k.shorts = k.faults = true; mc::set_deviation_bound(mc::thorough() ? 3 : 2);
	inode& a = k.fs["sim:a"]; a.data = pattern(len);
	inode& b = k.fs["sim:b"]; b.data = pattern(old, 'A');
	bytes src = a.data;
	std::string what; bool ok = true, threw = false;
	try {
		if (kind == 0) {
			file f("sim:a", mode_for_reading | mode_open_existing), g("sim:b", mode_for_writing | mode_create);
			if (f.ok() && g.ok()) {
				size_t before = k.all_errors;
				auto r = g.write_stream(f);
				MC_LOG("write_stream -> %llu, %s / %s", (unsigned long long)r, st_name(f.state()), st_name(g.state()));
				MC_CHECK(r == b.data.size() && b.data == sub(src, 0, r), "copy.data", "write_stream() returns %llu, copied is %s", (unsigned long long)r, show(b.data).c_str());
				MC_CHECK(r == len || f.state() == state_t::fail || g.state() == state_t::fail, "copy.state", "%llu of %zu bytes copied and states are %s and %s", (unsigned long long)r, len, st_name(f.state()), st_name(g.state()));
				MC_CHECK(k.all_errors > before || (f.state() == state_t::eof && g.state() != state_t::fail), "copy.state", "states are %s and %s without an error", st_name(f.state()), st_name(g.state()));
			}
			k.faults = false; // destructors closing
		}
		else if (kind == 1) {
			memory_file m; m.write("old!", 4);
			m.load("sim:a", mode_open_existing);
			ok = m.ok(); MC_LOG("load -> %s", st_name(m.state()));
			if (ok) MC_CHECK(m.size() == len && !memcmp(m.data(), src.data(), len) && m.tell() == 0, "load.data", "load() succeeds with %lld of %zu bytes", (long long)m.size(), len);
		}
		else {
			memory_file m; m.write(src.data(), src.size()); MC_CHECK(m.ok(), "save.state", "write to memory fails"); 
			m.save("sim:b", mode_preserve_existing);
			ok = m.ok(); MC_LOG("save -> %s", st_name(m.state()));
			if (ok) MC_CHECK(b.data == src, "save.data", "save() succeeds and leaves %s of %s", show(b.data).c_str(), show(src).c_str());
		}
	} catch (const std::system_error&) { threw = true; MC_CHECK(k.all_errors, "copy.throws", "an exception for no reason"); }
	if (kind) MC_CHECK(ok || k.all_errors, "copy.state", "%s() fails for no reason", kind == 1 ? "load" : "save");
	sane(); MC_CHECK(k.fds.empty(), "leak", "a descriptor is still open");
	mc::transition(); mc::state(mc::hmix(mc::hash(b.data.data(), b.data.size()), len)); mc::outcome(ok * 2 + threw + kind * 4); if (mc::deviations()) mc::nontrivial();
}

// Every descriptor is closed exactly once, whatever is copied, moved and refused.
MC_HARNESS(handle_ownership)
{
	kernel_scope ks; kernel& k = ks.k;
	inode n; n.data = pattern(3);
	mc::set_deviation_bound(mc::thorough() ? 3 : 2);
	size_t depth = mc::thorough() ? 6 : 5;
	typedef std::unique_ptr<stdex::sys_object> P;
	P o[2]; int own[2] = { -1, -1 }; // descriptor each should hold
	std::map<int, description*> what;
	auto held = [&](size_t i) { return o[i] ? o[i]->get() : -1; };
	plan pl(14);
	for (size_t step = 0; step < depth; step++) {
		size_t opx = pl.next(), op = opx / 2, x = opx % 2, y = 1 - x;
		k.faults = op == 2 || op == 3 || op == 4; k.begin();
		int was[2] = { held(0), held(1) };
		bool threw = false;
		try {
			switch (op) {
			case 0: if (o[x]) break; o[x].reset(new stdex::sys_object(k.open(n))); MC_LOG("new %zu", x); break;
			case 1: if (o[x]) break; o[x].reset(new stdex::sys_object()); MC_LOG("new empty %zu", x); break;
			case 2: // copy x to y
				if (!o[x]) break; MC_LOG("copy %zu to %zu", x, y);
				if (o[y]) *o[y] = *o[x]; else o[y].reset(new stdex::sys_object(*o[x]));
				MC_CHECK((held(y) == -1) == (held(x) == -1) && (held(y) == -1 || held(y) != held(x)), "own.copy", "the copy holds %s", held(y) == -1 ? "nothing" : "the same descriptor");
				MC_CHECK(held(x) == was[x], "own.copy", "copying changed the original");
				if (held(y) >= 0) MC_CHECK(k.get(held(y), "copy") && k.get(held(y), "copy")->node == &n, "own.copy", "the copy is not open");
				break;
			case 3: if (!o[x]) break; MC_LOG("close %zu", x); o[x]->close(); MC_CHECK(!*o[x], "own.close", "still valid after close()"); break;
			case 4: if (!o[x]) break; MC_LOG("destroy %zu", x); delete o[x].release(); break;
			case 5: if (!o[x]) break; MC_LOG("move %zu to %zu", x, y);
				if (o[y]) *o[y] = std::move(*o[x]); else o[y].reset(new stdex::sys_object(std::move(*o[x])));
				MC_CHECK(held(y) == was[x] && held(x) == -1, "own.move", "the moved-from object keeps its descriptor");
				break;
			case 6: if (!o[x]) break; MC_LOG("self-assign %zu", x); { auto& r = *o[x]; r = *o[x]; r = std::move(*o[x]); } MC_CHECK(held(x) == was[x], "own.self", "self-assignment changed the handle"); break;
			}
		} catch (const std::system_error&) { threw = true; MC_LOG("  throws"); MC_CHECK(k.errors, "own.throws", "an exception for no reason"); }
		sane();
		for (size_t i = 0; i < 2; i++) if (held(i) >= 0) MC_CHECK(k.fds.count(held(i)), "own.dangling", "object %zu holds a closed descriptor%s", i, threw ? " after an exception" : "");
		size_t live = (held(0) >= 0) + (held(1) >= 0);
		MC_CHECK(held(0) < 0 || held(0) != held(1), "own.shared", "both objects hold the same descriptor");
		MC_CHECK(k.fds.size() == live, "own.leak", "%zu descriptors are open, %zu objects hold one", k.fds.size(), live);
		mc::transition(); mc::state((o[0] ? 1 + (held(0) >= 0) : 0) * 3 + (o[1] ? 1 + (held(1) >= 0) : 0));
	}
	k.faults = false; o[0].reset(); o[1].reset(); sane();
	MC_CHECK(k.fds.empty(), "own.leak", "a descriptor is still open at the end");
	(void)own; mc::outcome(k.next * 4 + k.all_errors); if (k.next > base + 1) mc::nontrivial();
}
// The same of sockets, which can be moved only. A socket that was moved is the same socket: one that could not be created stays failed.
MC_HARNESS(socket_ownership)
{
	kernel_scope ks; kernel& k = ks.k; typedef stdex::stream::socket S;
	inode n; n.stream = true; n.data = pattern(3);
	size_t depth = mc::thorough() ? 6 : 5;
	std::unique_ptr<S> o[2]; state_t st[2] = {};
	auto held = [&](size_t i) { return o[i] ? (int)o[i]->get() : -1; };
	plan pl(16);
	for (size_t step = 0; step < depth; step++) {
		size_t opx = pl.next(), op = opx / 2, x = opx % 2, y = 1 - x; k.begin();
		int was[2] = { held(0), held(1) };
		switch (op) {
		case 0: if (o[x]) break; o[x].reset(new S(k.open(n))); st[x] = state_t::ok; MC_LOG("new %zu", x); break;
		case 1: if (o[x]) break; o[x].reset(new S()); st[x] = state_t::ok; MC_LOG("new empty %zu", x); break;
		case 2: if (o[x]) break; o[x].reset(new S(-1, SOCK_STREAM, 0)); st[x] = state_t::fail; MC_LOG("new %zu that fails", x); MC_CHECK(held(x) == -1, "socket.create", "a socket that cannot be created has a handle"); break;
		case 3: if (!o[x]) break; MC_LOG("close %zu", x); o[x]->close(); st[x] = state_t::ok; MC_CHECK(held(x) == -1, "socket.close", "still open after close()"); break;
		case 4: if (!o[x]) break; MC_LOG("destroy %zu", x); o[x].reset(); break;
		case 5: if (!o[x]) break; MC_LOG("move %zu to %zu", x, y);
			if (o[y]) *o[y] = std::move(*o[x]); else o[y].reset(new S(std::move(*o[x])));
			MC_CHECK(held(y) == was[x] && held(x) == -1, "socket.move", "the handle did not move"); st[y] = st[x]; st[x] = o[x]->state(); break;
		case 6: if (!o[x]) break; MC_LOG("move %zu to itself", x); { S& r = *o[x]; r = std::move(*o[x]); } MC_CHECK(held(x) == was[x], "socket.self", "moving to itself changed the handle"); break;
		case 7: if (!o[x] || held(x) < 0) break; { uint8_t b[2]; MC_LOG("read %zu", x); size_t r = o[x]->read(b, 2); st[x] = r ? state_t::ok : state_t::eof; } break;
		}
		sane();
		size_t live = (held(0) >= 0) + (held(1) >= 0);
		for (size_t i = 0; i < 2; i++) { MC_CHECK(held(i) < 0 || k.fds.count(held(i)), "socket.dangling", "socket %zu holds a closed descriptor", i); MC_CHECK(!o[i] || (o[i]->state() == st[i] && (bool)*o[i] == (held(i) >= 0)), "socket.state", "socket %zu has state %s instead of %s", i, st_name(o[i]->state()), st_name(st[i])); }
		MC_CHECK((held(0) < 0 || held(0) != held(1)) && k.fds.size() == live, "socket.leak", "%zu descriptors are open, %zu sockets hold one", k.fds.size(), live);
		mc::transition(); mc::state(((o[0] ? 1 + (held(0) >= 0) + 2 * (int)st[0] : 0) * 16 + (o[1] ? 1 + (held(1) >= 0) + 2 * (int)st[1] : 0)));
	}
	o[0].reset(); o[1].reset(); sane();
	MC_CHECK(k.fds.empty(), "socket.leak", "a socket is still open at the end");
	mc::outcome(k.next); if (k.next > base + 1) mc::nontrivial();
}
