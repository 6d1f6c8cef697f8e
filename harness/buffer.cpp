#include "common.h"
using namespace stdex::stream;

// Reading through the buffer: for every cut of the source into short reads and every request sequence the
// delivered bytes are the source's, in order, and the end is reported only when all were delivered.
MC_HARNESS(buffer_read)
{
	static const size_t caps[] = { 0, 1, 3, 4 };
	size_t cap = mc::pick(caps);
	size_t len = mc::thorough() ? 9 : 7;
	short_source src(pattern(len));
	if (mc::flip()) src.fail_at = mc::choose(2) ? 4 : len;
	mc::set_deviation_bound(mc::thorough() ? 4 : 3);
	buffer b(src, cap, 2);
	static const size_t reqs[] = { 1, 2, 3, 5, 8, 0 };
	size_t got = 0, limit = std::min(src.fail_at, len);
	for (size_t i = 0; i < (mc::thorough() ? 6 : 5); i++) {
		size_t n = mc::pick(reqs);
		if (i == 0) mc::job();
		uint8_t* p = new uint8_t[n + 1]; std::unique_ptr<uint8_t[]> g(p); p[n] = 0xEE;
		size_t r = b.read(p, n);
		MC_LOG("read %zu -> %zu %s", n, r, st_name(b.state()));
		MC_CHECK(r <= n && p[n] == 0xEE, "count", "read(%zu) returned %zu", n, r);
		MC_CHECK(got + r <= limit && bytes(p, p + r) == sub(src.data, got, r), "data", "read(%zu) at %zu returned %s, expected %s", n, got, mc::quote(p, r).c_str(), show(sub(src.data, got, n)).c_str());
		got += r;
		if (n == 0) MC_CHECK(b.ok(), "null", "a null read left state %s", st_name(b.state()));
		else if (r) MC_CHECK(b.ok(), "state", "read(%zu) delivered %zu bytes but the state is %s", n, r, st_name(b.state()));
		else {
			MC_CHECK(got == limit, "early", "end reported after %zu of %zu bytes", got, limit);
			MC_CHECK(b.state() == (src.fail_at == SIZE_MAX ? state_t::eof : state_t::fail), "state", "nothing delivered and state %s", st_name(b.state()));
		}
		mc::transition(); mc::state(mc::hmix(mc::hmix(got * 64 + src.pos, cap), (int)b.state()));
	}
	mc::outcome(mc::hmix(got, cap)); if (mc::deviations()) mc::nontrivial();
}

// Writing through the buffer: what reaches the destination is always a prefix of what was written, nothing is
// lost or repeated, and after a successful flush or destruction all of it is there.
MC_HARNESS(buffer_write)
{
	static const size_t caps[] = { 0, 1, 3, 4 };
	size_t cap = mc::pick(caps);
	bool faults = mc::flip();
	short_sink dst(faults);
	dst.sticky = faults ? mc::flip() : false;
	mc::set_deviation_bound(mc::thorough() ? 2 : 1);
	bytes all; uint8_t next = 'a';
	bool failed = false;
	{
		buffer b(dst, 3, cap);
		struct Calm { short_sink& f; ~Calm() { if (std::uncaught_exceptions()) f.faults = false; } } calm{ dst };
		static const size_t lens[] = { 1, 2, 3, 5, 9, 0, SIZE_MAX };
		for (size_t i = 0; i < (mc::thorough() ? 6 : 5); i++) {
			size_t n = mc::pick(lens);
			if (i == 0) mc::job();
			if (n == SIZE_MAX) {
				b.flush();
				MC_LOG("flush -> %s", st_name(b.state()));
				if (b.ok()) {
					MC_CHECK(dst.flushes > 0, "flush.source", "flush was not passed to the destination");
					MC_CHECK(dst.data == all, "flush.data", "flush succeeded but the destination holds %s, expected %s", show(dst.data).c_str(), show(all).c_str());
				}
				else { MC_CHECK(dst.failed, "flush.state", "flush failed although the destination did not"); failed = true; }
			}
			else {
				bytes x = pattern(n, next); next = (uint8_t)(next + n);
				uint8_t* p = new uint8_t[n]; std::unique_ptr<uint8_t[]> g(p); memcpy(p, x.data(), n);
				size_t before = all.size();
				size_t nulls = dst.nulls;
				size_t r = b.write(p, n);
				MC_LOG("write %zu -> %zu %s", n, r, st_name(b.state()));
				MC_CHECK(r <= n, "count", "write(%zu) returned %zu", n, r);
				all.insert(all.end(), x.begin(), x.begin() + r);
				if (r < n || !b.ok()) { MC_CHECK(dst.failed, "state", "write(%zu) returned %zu, state %s, although the destination did not fail", n, r, st_name(b.state())); MC_CHECK(!b.ok(), "unreported", "a short write left state ok"); failed = true; }
				if (n == 0 && b.ok()) MC_CHECK(dst.nulls == nulls + 1 && dst.data == all, "null", "a null write did not reach the destination after the data before it");
				(void)before;
			}
			MC_CHECK(dst.data.size() <= all.size() && std::equal(dst.data.begin(), dst.data.end(), all.begin()), "order", "the destination holds %s, which is not a prefix of %s", show(dst.data).c_str(), show(all).c_str());
			mc::transition(); mc::state(mc::hmix(mc::hash(dst.data.data(), dst.data.size(), cap), all.size()));
			if (failed) break;
		}
		if (!failed && mc::flip()) {
			b.close();
			MC_LOG("close -> %s", st_name(b.state()));
			MC_CHECK(dst.closes == 1, "close.source", "close was passed to the destination %zu times", dst.closes);
			if (b.ok()) MC_CHECK(dst.data == all, "close.data", "close succeeded but the destination holds %s, expected %s", show(dst.data).c_str(), show(all).c_str());
			else { MC_CHECK(dst.failed, "close.state", "close failed although the destination did not"); failed = true; }
		}
		if (failed) dst.faults = false;
	}
	MC_CHECK(dst.data.size() <= all.size() && std::equal(dst.data.begin(), dst.data.end(), all.begin()), "order", "the destination holds %s, which is not a prefix of %s", show(dst.data).c_str(), show(all).c_str());
	if (!dst.failed) MC_CHECK(dst.data == all, "lost", "destination holds %s, written %s", show(dst.data).c_str(), show(all).c_str());
	mc::outcome(mc::hash(dst.data.data(), dst.data.size(), cap)); if (all.size() > cap) mc::nontrivial();
}

// Buffered system stream on a real pipe / file.
MC_HARNESS(buffered_sys_pipe)
{
	static const size_t caps[] = { 0, 1, 4 };
	size_t rc = mc::pick(caps), wc = mc::pick(caps);
	mc::job();
	int fd[2]; if (pipe(fd)) mc::fail("pipe", "pipe() failed");
	bytes all; uint8_t next = 'a';
	{
		buffered_sys w(fd[1], 0, wc);
		static const size_t lens[] = { 1, 3, 6 };
		for (size_t i = 0; i < 3; i++) {
			size_t n = mc::pick(lens);
			bytes x = pattern(n, next); next = (uint8_t)(next + n);
			MC_CHECK(w.write(x.data(), n) == n && w.ok(), "write", "write failed");
			all.insert(all.end(), x.begin(), x.end()); mc::transition();
		}
	}
	bytes got;
	{
		buffered_sys r(fd[0], rc, 0);
		static const size_t lens[] = { 2, 5 };
		for (;;) {
			uint8_t p[8]; size_t n = got.size() < 12 ? mc::pick(lens) : 8;
			size_t k = r.read(p, n);
			if (!k) { MC_CHECK(r.state() == state_t::eof, "state", "end reported as %s", st_name(r.state())); break; }
			got.insert(got.end(), p, p + k); mc::transition();
			MC_CHECK(got.size() <= all.size(), "data", "too much data");
		}
	}
	MC_CHECK(got == all, "data", "got %s, expected %s", show(got).c_str(), show(all).c_str());
	mc::state(mc::hash(all.data(), all.size(), rc * 16 + wc)); mc::outcome(mc::hash(all.data(), all.size())); mc::nontrivial();
}
