#include "common.h"
using namespace stdex::stream;

MC_HARNESS(fifo_ops)
{
	fifo f; bytes q; uint8_t next = 'a';
	static const size_t ws[] = { 1, 2, 5, 0 }, rs[] = { 1, 2, 3, 8, 0 };
	for (size_t i = 0; i < (mc::thorough() ? 8 : 6); i++) {
		size_t op = mc::choose(10);
		if (i == 1) mc::job();
		if (op < 4) {
			size_t n = ws[op]; bytes x = pattern(n, next); next = (uint8_t)(next + n);
			uint8_t* p = new uint8_t[n]; std::unique_ptr<uint8_t[]> g(p); memcpy(p, x.data(), n);
			size_t r = f.write(p, n);
			MC_LOG("write %zu -> %zu", n, r);
			MC_CHECK(r == n && f.ok(), "write", "write(%zu) returned %zu, state %s", n, r, st_name(f.state()));
			q.insert(q.end(), x.begin(), x.end());
		}
		else if (op < 9) {
			size_t n = rs[op - 4]; uint8_t* p = new uint8_t[n]; std::unique_ptr<uint8_t[]> g(p);
			size_t r = f.read(p, n); bytes e = sub(q, 0, n);
			MC_LOG("read %zu -> %s", n, mc::quote(p, std::min(r, n)).c_str());
			MC_CHECK(r == e.size() && bytes(p, p + r) == e, "read", "read(%zu) returned %s, expected %s", n, mc::quote(p, std::min(r, n)).c_str(), show(e).c_str());
			MC_CHECK(f.state() == (n && e.empty() ? state_t::eof : state_t::ok), "read.state", "read(%zu) of %zu queued: state %s", n, q.size(), st_name(f.state()));
			q.erase(q.begin(), q.begin() + r);
		}
		else { f.close(); MC_LOG("close"); MC_CHECK(f.ok(), "close", "close failed"); q.clear(); }
		MC_CHECK(f.size() == q.size(), "size", "size() is %zu, expected %zu", f.size(), q.size());
		mc::transition(); mc::state(mc::hash(q.data(), q.size()));
	}
	mc::outcome(mc::hash(q.data(), q.size(), next)); if (next > 'a' + 2) mc::nontrivial();
}

// Writes and reads of more than 16 bits can count, and queues of many writes.
MC_HARNESS(fifo_large)
{
	static const size_t ws[] = { 200, 65535, 65536, 70003, 196613 }, rs[] = { 1, 255, 65535, 65537, 140000, 400000 };
	fifo f; bytes q; size_t at = 0; uint32_t next = 1;
	size_t many = mc::choose(3) * 300; // queued one byte at a time first
	auto gen = [&](size_t n) { bytes x(n); for (auto& c : x) { next = next * 1664525u + 1013904223u; c = (uint8_t)(next >> 24); } return x; };
	for (size_t i = 0; i < many; i++) { bytes x = gen(1); MC_CHECK(f.write(x.data(), 1) == 1, "write", "write failed"); q.push_back(x[0]); }
	for (size_t i = 0; i < (mc::thorough() ? 5 : 4); i++) {
		size_t op = mc::choose(12);
		if (i == 0) mc::job();
		if (op < 5) {
			size_t n = ws[op]; bytes x = gen(n);
			size_t r = f.write(x.data(), n);
			MC_LOG("write %zu -> %zu", n, r);
			MC_CHECK(r == n && f.ok(), "write", "write(%zu) returned %zu, state %s", n, r, st_name(f.state()));
			q.insert(q.end(), x.begin(), x.end());
		}
		else if (op < 11) {
			size_t n = rs[op - 5], e = std::min(n, q.size() - at); bytes b(n);
			size_t r = f.read(b.data(), n);
			MC_LOG("read %zu -> %zu", n, r);
			MC_CHECK(r == e, "read", "read(%zu) of %zu queued returned %zu", n, q.size() - at, r);
			size_t d = 0; while (d < e && b[d] == q[at + d]) d++;
			MC_CHECK(d == e, "read", "read(%zu): byte %zu differs", n, d);
			MC_CHECK(f.state() == (e ? state_t::ok : state_t::eof), "read.state", "state %s", st_name(f.state()));
			at += r;
		}
		else { f.close(); MC_LOG("close"); q.clear(); at = 0; }
		MC_CHECK(f.size() == q.size() - at, "size", "size() is %zu, expected %zu", f.size(), q.size() - at);
		mc::transition(); mc::state(mc::hmix(q.size(), at));
	}
	mc::outcome(mc::hmix(q.size(), at)); if (!q.empty()) mc::nontrivial();
}
